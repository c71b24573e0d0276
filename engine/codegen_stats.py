functions = []
blocks = 0
instrs = 0

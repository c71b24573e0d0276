"""Which harnesses decide which property, and within which bounds."""
DEFAULT = dict(tier='quick', timeout=400, assert_ms=60000, feas_ms=4000, reach=[], asserts=[], weight=1, validate=4, what='', bounds='')
ASSUMPTIONS = [
    'the operating system behaves as harness/src/env.rs: one TCP stream and one UDP socket per connection, files in a map, the scheduling and '
    'memory locking calls succeed or fail as told, the dynamic loader offers the functions it is told to offer',
    'the encoded program is the LLVM IR (x86-64 Linux, the release settings of the harness crate) rustc makes of /repo/src, its dependencies '
    'and the standard library; rustc, LLVM code generation and Z3 are trusted',
    'floating point: in exact mode (moved, compared and stored values) bit for bit; in real mode (arithmetic of filter, limiter, generator, '
    'load) values are reals with a tolerance in the assertion, each counterexample is confirmed by running the native build',
    'one thread: the library starts none',
]


def H(name, what, bounds='', reach=(1,), asserts=(), **kw):
    return dict(name=name, what=what, bounds=bounds, reach=list(reach), asserts=list(asserts), **kw)


PROPS = {}
TEXT = {}


def prop(pid, harnesses, outside=(), assumptions=(), text=None):
    PROPS[pid] = dict(harnesses=harnesses, outside=list(outside), assumptions=list(assumptions))
    for k, v in (text or {}).items():
        for h in harnesses:
            TEXT[(h['name'], k)] = v


def describe(h, i):
    return TEXT.get((h, i)) or ('crash, hang or wrong kind of result' if i in (1, 91) else 'see harness source')


prop('C01', [
    H('h01_services', 'every robot service call followed by another one', '11 calls, then each of them again; all argument values any bits',
      reach=range(1, 12), asserts=range(1, 8)),
    H('h01_gripper', 'every gripper call followed by another one', '7 calls; all argument values any bits', reach=range(1, 8), asserts=range(1, 8)),
    H('h01_history', 'ids of a long session', '66000 requests (thorough: 200000) to robot and gripper each', reach=[1, 2], asserts=[5, 6, 7]),
    H('h01_default_behavior', 'default behaviour constants', '', asserts=[4, 7]),
    H('h01_move', 'what each motion call asks for', '18 ways of starting a motion', reach=range(1, 19), asserts=[4, 6, 7]),
], outside=['sequences of more than two different calls (their requests do not depend on each other but for the id)', 'more than 200000 requests'],
    text={1: 'length of the request', 2: 'command number', 3: 'size field', 4: 'body bytes', 5: 'request id reused',
          6: 'result of an accepted call', 7: 'number of requests', 8: 'panic or hang'})
prop('C02', [
    H('h02_fields', 'all floating point fields, id', 'every field any bits, masses fixed', asserts=range(1, 45)),
    H('h02_modes', 'modes', 'every combination of the mode fields one at a time', asserts=[42]),
    H('h02_errors', 'error lists', 'each of the 41 flags of both lists against all-clear and all-set', asserts=[43, 44, 45, 46], weight=5),
    H('h02_display', 'printed error lists', 'up to four errors', reach=[1, 2, 3, 4]),
    H('h02_gripper', 'gripper state', 'every field any bits', asserts=range(51, 56)),
    H('h02_length', 'wrong length', 'four shorter and longer sizes'),
], outside=['arbitrary combinations of more than one flag that differs from a uniform background',
            'mode bytes that are no mode (the decoder rejects them; not claimed)'],
    text={41: 'time', 42: 'mode', 43: 'current errors', 44: 'errors of the last motion', 45: 'query of a current error', 46: 'query of a past error',
          47: 'printed list', 51: 'width', 52: 'maximum width', 53: 'grasped', 54: 'temperature', 55: 'time', 92: 'a wrong datagram became a state'})
prop('C03', [
    H('h03_services', 'every robot service x every status', '11 calls, all statuses of each', reach=[1, 2], asserts=[1, 2, 3]),
    H('h03_messages', 'error texts', 'all statuses of all kinds of replies', reach=[1, 2, 3, 4]),
    H('h03_wall', 'content of a virtual wall', 'all values any bits'),
    H('h03_gripper', 'gripper results', 'all statuses of all calls'),
    H('h03_default_behavior', 'default behaviour with refusals', 'every status of each of the three calls', reach=[1, 2]),
], outside=['status bytes that are no status'],
    text={1: 'Ok without success or error with success', 2: 'kind of error', 3: 'the following call', 5: 'user stop', 6: 'reflex', 7: 'manual recovery',
          8: 'invalid argument', 9: 'rejected', 10: 'aborted', 11: 'preempted', 12: 'singular pose', 13: 'invalid input', 14: 'id', 15: 'size',
          16: 'frame', 17: 'active', 18: 'unsuccessful'})
prop('C04', [
    H('h04_split', 'replies cut into up to three segments', 'any two cut places', reach=[1, 2, 3], asserts=[2, 3]),
    H('h04_split_wall', 'a long reply cut in two', '24 cut places', reach=[1], asserts=[4]),
    H('h04_split_connect', 'the connection reply cut into up to three segments', 'any two cut places', reach=[1, 2], asserts=[5]),
    H('h04_split_gripper', 'gripper replies cut into up to three segments', 'any two cut places', reach=[1, 2, 3], asserts=[2]),
    H('h04_foreign', 'replies to other requests around the awaited one', 'up to two before and after, joined or not', reach=[1], asserts=[2]),
    H('h04_motion_tail', 'replies at the end of a failed motion', 'every order and joining of abort and stop reply', reach=[1, 2, 3], asserts=[2, 6]),
    H('h04_started_and_ended', 'acceptance and end of a motion arriving together', '', reach=[1, 2, 3], asserts=[2, 7]),
], outside=['more than three segments per reply', 'more than two foreign replies', 'replies longer than 64 KiB (but see the library of C17)'],
    text={1: 'panic or hang', 2: 'result decided by the request\'s own reply', 3: 'all segments consumed',
          4: 'content of the reply', 5: 'server version', 6: 'failed motion reported as success', 7: 'kind of error'})
prop('C05', [
    H('h05_read_once', 'state on request with waiting datagrams', 'up to 3 waiting, ids below 2^60', reach=[1, 2], asserts=[2, 3, 4, 5, 6, 9]),
    H('h05_read', 'continuous reading', 'up to 3, then up to 2 waiting, ids of 12 bits', reach=[1], asserts=[2, 3, 4, 5, 7, 8]),
    H('h05_control', 'states handed to callbacks', 'up to 2 waiting per cycle, ids of 9 bits', reach=[1], asserts=[2, 3, 4, 5, 7]),
    H('h05_gripper', 'gripper state on request', 'up to 3 waiting', reach=[1], asserts=[2, 5, 6]),
], outside=['more datagrams waiting at the same time', 'counters that wrap around'],
    text={1: 'panic or hang', 2: 'state made of parts of different datagrams', 3: 'state that was never sent',
          4: 'state not newer than the one before', 5: 'a newer state was waiting', 6: 'time', 7: 'result', 8: 'number of callbacks', 9: 'received before it was asked for'})
prop('C06', [
    H('h06_content', 'datagram content', '9 kinds of motions, three callbacks, all values within 1e6 bit for bit, elbow given or not in each cycle',
      reach=range(1, 10), asserts=range(2, 12)),
], outside=['more than three callbacks', 'values beyond 1e6'],
    text={2: 'one datagram per callback', 3: 'result', 4: 'number of datagrams', 5: 'destination', 6: 'length', 7: 'id of the newest state',
          8: 'finished flag', 9: 'elbow flag', 10: 'motion values', 11: 'torques'})
prop('C07', [
    H('h07_torques', 'torques', '5 kinds of motions with torques, two cycles, last torque and request any value within +-1000', reach=range(1, 6), asserts=[2, 3, 4, 5]),
    H('h07_default', 'defaults and filter', 'cutoff 1 to 999', reach=range(1, 6), asserts=[2, 4]),
], outside=['more than two cycles (each depends on the robot state only)'],
    text={2: 'result', 3: 'one command per cycle', 4: 'torque rate', 5: 'unchanged within the limit, exactly the limit beyond'})
prop('C08', [
    H('h08_velocities', 'joint velocities', 'last command any consistent one, request within +-20, with and without torques', reach=[1, 2], asserts=range(4, 10)),
    H('h08_positions', 'joint positions', 'the same for positions', reach=[1, 2], asserts=range(4, 10)),
    H('h08_default', 'defaults and filter', 'cutoff 1 to 999', reach=[1, 2], asserts=[4, 5, 6]),
], outside=['last commands outside the limits or unable to brake in time', 'rounding (margins of the limiter are larger)'],
    assumptions=['the inductive step: the last command reported by the robot is within the limits and its acceleration leaves room to brake; '
                 'assertion 7 shows that the next command keeps this'],
    text={2: 'result', 4: 'velocity', 5: 'acceleration', 6: 'jerk', 7: 'the command leaves no room for the next one', 8: 'a harmless request was changed',
          9: 'further than asked for'})
prop('C09', [
    H('h09_axis', 'one axis', 'translation and rotation, v within 3, a within 30, request within 10, last command consistent', reach=range(1, 7), asserts=range(2, 10)),
    H('h09_space', 'directions', '5 last commands x 4 directions of the request, any length', asserts=[2, 3, 4, 5, 6, 8]),
    H('h09_pose', 'poses', '5 orientations, 3 angular velocities, requested rotations about the axes, any translation',
      asserts=[2, 4, 5, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17]),
    H('h09_elbow', 'elbow', 'last elbow consistent, request within 10, all Cartesian interfaces', reach=[2, 3, 6, 7], asserts=range(2, 10)),
], outside=['arbitrary directions of last velocity, acceleration and request at the same time (norms of three symbolic vectors)', 'arbitrary rotations'],
    assumptions=['the last command is consistent, as for joints'],
    text={2: 'result', 3: 'another axis moved', 4: 'velocity', 5: 'acceleration', 6: 'jerk', 7: 'no room for the next command',
          8: 'a harmless request was changed', 9: 'further than asked for', 10: 'angular velocity', 11: 'angular acceleration', 12: 'angular jerk',
          13: 'rotation about another axis', 14: 'a harmless rotation was changed', 15: 'no motion towards the request', 16: 'no rotation', 17: 'last row'})
prop('C10', [
    H('h10_joints', 'joint values and torques', 'cutoff 0.01 to 999.9, values within 10, two cycles', reach=[1, 2, 5, 6, 9], asserts=[3, 4, 5]),
    H('h10_cartesian', 'twists, poses, elbow', 'the same, 6 rotations', reach=[1, 2, 5, 6], asserts=[4, 5, 6, 7]),
    H('h10_slerp', 'rotations', 'half way between 5 pairs of rotations', asserts=[4, 5, 6]),
    H('h10_off', 'no filter', 'any cutoff at or above the maximum, values bit for bit', reach=range(1, 10), asserts=[2, 8]),
    H('h10_invalid', 'invalid arguments', 'each argument any bits', reach=range(1, 9), asserts=[9]),
    H('h10_function', 'public filter function', 'sample time 1e-4 to 0.1, cutoff 0.01 to 1000', asserts=[4, 5]),
], outside=['interpolation of arbitrary rotations with an arbitrary gain (sine and arc cosine are beyond the solver)'],
    text={2: 'result', 3: 'one command per cycle', 4: 'gain', 5: 'between last value and request', 6: 'rotation', 7: 'flip direction', 8: 'unfiltered value',
          9: 'an invalid argument was accepted'})
prop('C11', [
    H('h11_not_finite', 'NaN and infinity', 'any bit pattern of NaN or infinity in each place of each interface', reach=[], asserts=[3, 4]),
    H('h11_pose', 'poses', 'each element any finite value within 1000', reach=[1], asserts=[3, 4, 5, 6, 7]),
    H('h11_elbow', 'elbow', 'any two bit patterns', reach=[1], asserts=[3, 4, 8]),
    H('h11_valid', 'valid values', 'values within the limits of each interface', reach=range(1, 10), asserts=[2, 10]),
], outside=['poses with more than one changed rotation element', 'values whose arithmetic overflows'],
    text={2: 'a valid value was refused', 3: 'length', 4: 'NaN or infinity sent', 5: 'last row', 6: 'columns', 7: 'rows', 8: 'flip direction', 10: 'nothing sent'})
prop('C12', [
    H('h12_motion', 'every interface from start to end, twice', '13 kinds, 1 to 3 callbacks, start lag 0 to 2, finish 1 to 3', reach=range(1, 14), asserts=range(2, 12)),
    H('h12_gradual', 'modes that change one after the other', '6 kinds, every order, lag 1 to 2', reach=range(1, 7), asserts=[2, 4, 6, 7, 8, 9, 11]),
    H('h12_time', 'time steps for arbitrary gaps', 'three gaps of 6 bits, three base times', reach=[1], asserts=[5, 6, 7]),
    H('h12_end', 'every final status', '', reach=[1, 2], asserts=[7, 12]),
    H('h12_busy', 'no second motion', 'every combination of reported modes', reach=[1, 2], asserts=[7, 14]),
    H('h12_refused', 'refused motions', 'every status and kind', reach=[1], asserts=[7, 8, 10, 16]),
], outside=['more than three callbacks', 'gaps above 63 ms'],
    text={2: 'callback before the motion runs', 3: 'one request', 4: 'one command per callback', 5: 'state', 6: 'time step', 7: 'result',
          8: 'number of callbacks', 9: 'returned before the motion ended', 10: 'number of commands', 11: 'finished flag', 12: 'text', 13: 'kind of error',
          14: 'motion requested while one is running', 15: 'crash', 16: 'later attempt'})
prop('C13', [
    H('h13_log', 'small logs', 'sizes 1, 2, 3, 5, up to 6 cycles, three ways to fail, after an earlier motion or not', reach=[1, 2, 3], asserts=range(2, 7)),
    H('h13_zero', 'log of size zero', '', reach=[1, 2, 3], asserts=[2, 6]),
], outside=['other sizes and more cycles'],
    text={2: 'number of records', 3: 'state', 4: 'state', 5: 'command', 6: 'text', 7: 'kind of error'})
prop('C14', [
    H('h14_time', 'all times', '10 cases of speed and distances, any time within seconds 0 to 5', reach=[1, 2], asserts=range(2, 10)),
    H('h14_long', 'all distances', 'one joint, any distance reaching full speed, starts within 3, 4 patterns of times', reach=[1, 2], asserts=range(2, 9)),
    H('h14_short', 'all distances', 'one joint, any distance not reaching full speed', reach=[1, 2], asserts=range(2, 9)),
    H('h14_near', 'no motion', 'goals at the start', asserts=[8, 10]),
    H('h14_robot', 'commands', 'whole motions against an ideal robot', asserts=[5, 6, 7, 8, 11, 12, 13]),
], outside=['several joints with arbitrary distances at the same time', 'a second time step of zero (a control loop hands out one)'],
    text={2: 'start', 3: 'finished at once', 4: 'finished too early', 5: 'outside start and goal', 6: 'speed', 7: 'not finished in time', 8: 'goal',
          9: 'finished again', 10: 'a goal at the start is not finished', 11: 'result', 12: 'kind of motion', 13: 'no command'})
prop('C15', [
    H('h15_combine', 'state read once', 'masses 0 or 1e-3 to 20, centers within 1, inertias within 1', reach=[1, 2, 3, 4], asserts=[2, 3, 4, 5, 6]),
    H('h15_everywhere', 'continuous reading and motions', 'the same', reach=[1], asserts=[2, 3, 4]),
    H('h15_mass', 'any mass', 'any mass below 1e6, center of mass zero', reach=[1, 2], asserts=[2, 4]),
], outside=['negative masses', 'rounding of large values'],
    text={2: 'mass', 3: 'center of mass', 4: 'inertia', 5: 'massless parts', 6: 'one massless part'})
prop('C16', [
    H('h16_frames', 'poses and Jacobians of every frame but the stiffness frame', 'all values any bits', reach=[1, 2, 3], asserts=[3, 4, 5, 6]),
    H('h16_stiffness', 'stiffness frame', 'rotation and translation entries within 2, real arithmetic', reach=[1, 2, 3], asserts=[3, 4, 5, 6]),
    H('h16_dynamics', 'mass, Coriolis, gravity', 'all values any bits', reach=[1, 2, 3, 4], asserts=[3, 4, 6, 7, 8, 9, 10, 11]),
    H('h16_missing', 'incomplete or missing library', 'each function missing', reach=[1, 2], asserts=[2, 12]),
], outside=['the functions of the library themselves'],
    text={1: 'panic or hang', 2: 'complete library not loaded', 3: 'function called', 4: 'joint positions passed', 5: 'transformation passed',
          6: 'result returned', 7: 'mass', 8: 'center of mass', 9: 'inertia', 10: 'joint velocities', 11: 'gravity vector', 12: 'missing part not reported'})
prop('C17', [
    H('h17_download', 'download, partial writes, segmented replies', '1 to 12 bytes, any cut or short write', reach=[1, 2], asserts=range(2, 8)),
    H('h17_existing', 'a library that is already there', '', reach=[1, 2, 3], asserts=[2, 3, 5, 6, 8]),
    H('h17_failures', 'failures', 'every refusal, file and loader failures', reach=range(1, 7), asserts=[2, 4, 5, 6, 8]),
    H('h17_large', 'a large library', 'more than 70000 bytes', asserts=[2, 5]),
], outside=['a failing write in the middle of the file', 'an empty library'],
    text={2: 'result', 3: 'request', 4: 'loaded', 5: 'bytes', 6: 'file left or missing', 7: 'following call', 8: 'kind of error'})
prop('C18', [
    H('h18_connect', 'connecting', 'any status, version, port and first state id, two hosts, robot and gripper', reach=[1, 2], asserts=range(2, 9)),
    H('h18_message', 'error text', '', asserts=[9, 10]),
], outside=['host name resolution'],
    text={2: 'address', 3: 'request', 4: 'announced version', 5: 'announced port', 6: 'result', 7: 'server version', 8: 'versions in the error', 9: 'kind of error', 10: 'text'})
prop('C19', [
    H('h19_realtime', 'realtime', '11 kinds x 3 configurations x kernel x 4 failures x repeated', reach=[1, 2, 3], asserts=range(3, 10)),
], outside=['what the kernel does with the priority'],
    text={2: 'crash', 3: 'result', 4: 'motion without realtime', 5: 'result', 6: 'motion', 7: 'callback without realtime', 8: 'motion before realtime', 9: 'other calls'})
prop('C20', [
    H('h20_values', 'values', 'any bits', asserts=range(2, 8)),
    H('h20_translation', 'isometries', '12 rotations, translations any finite value', asserts=range(8, 12)),
], outside=['arbitrary rotations (square roots of symbolic sums)'],
    text={2: 'joint positions', 3: 'joint velocities', 4: 'torques', 5: 'twist', 6: 'pose', 7: 'finished', 8: 'translation', 9: 'elbow or finished', 10: 'last row', 11: 'rotation'})
prop('C21', [
    H('h21_services', 'robot services', 'closed, closed after 1 to 12 bytes of the reply, not writable', reach=[1, 2, 3], asserts=[2]),
    H('h21_gripper', 'gripper calls', 'the same', reach=[1, 2, 3], asserts=[2]),
    H('h21_connect', 'while connecting', 'six ways to fail', reach=range(1, 7), asserts=[2, 3]),
    H('h21_silent', 'no states', '', reach=[1, 2, 3], asserts=[2, 4]),
    H('h21_motion', 'during a motion', 'after up to three callbacks', reach=[1, 2, 3], asserts=[2, 4]),
    H('h21_start', 'when starting a motion', '', reach=[1, 2, 3, 4], asserts=[2, 4]),
], outside=['time until a failure is noticed'],
    text={2: 'kind of result', 3: 'result of a good connection', 4: 'number of callbacks'})
prop('C22', [
    H('h22_abort', 'motions aborted by the robot', 'statuses 2 to 9, stop statuses 0 to 4, all modes', reach=[1, 2], asserts=[2, 3, 4, 6, 7, 8, 9]),
    H('h22_local', 'local failures', 'invalid datagram, failing send, after 1 to 3 callbacks', reach=[1, 2], asserts=[5, 6, 7, 9, 10]),
    H('h22_gradual', 'modes that change one after the other', 'every order', reach=range(1, 6), asserts=[5, 6, 7, 9, 10]),
    H('h22_silent', 'silence during a motion', '', reach=[1], asserts=[5, 7]),
], outside=['more than three callbacks before the failure'],
    text={2: 'text', 3: 'names of the causes', 4: 'log', 5: 'original cause', 6: 'callback or command after the failure', 7: 'stop request',
          8: 'following call', 9: 'following motion', 10: 'returned before the motion ended'})

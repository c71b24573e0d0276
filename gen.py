#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from this table and props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props

T = {}


def P(pid, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, statement
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    T[pid] = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a}


R, I, N, G = 'src/robot.rs', 'src/robot/robot_impl.rs', 'src/network.rs', 'src/gripper.rs'
CL, CTL, LIM, LPF = 'src/robot/control_loop.rs', 'src/robot/control_types.rs', 'src/robot/rate_limiting.rs', 'src/robot/low_pass_filter.rs'

P('C01', 'Every call sends exactly the request the robot protocol prescribes',
  'Each service call of the robot and of the gripper, and each call that starts a motion, writes exactly one request to the TCP connection: the right command number, a fresh id, the true length, and all arguments (and documented default values) unchanged, in the order and encoding of the FCI protocol. Setting the default behaviour sends the documented constants, and a motion request asks for the motion generator, controller and deviation limits that belong to the call.',
  ['inputs', 'histories'], 'for all argument values (every bit pattern of every number), all service calls, and every pair of consecutive calls',
  'The tests check a few calls with one set of arguments through mocks; a swapped pair of fields with equal test values, or a value-dependent error, passes them.',
  [R, G, 'src/robot/service_types.rs', 'src/gripper/types.rs', I, N],
  [('service calls of the robot', 'src/robot.rs: set_*/get_*/automatic_error_recovery/stop'), ('service calls of the gripper', 'src/gripper.rs: homing/grasp/move_gripper/stop'), ('request layout', 'src/robot/service_types.rs, src/gripper/types.rs'), ('encoding and ids', 'src/network.rs: create_header_for_*, tcp_send_request')],
  'bytes written to the TCP socket')
P('C02', 'Robot and gripper states are decoded exactly as sent',
  'Every field of the state handed to the user equals, bit for bit, the corresponding field of the received datagram (times are the sent counters in milliseconds), every error flag is reported under its own name in the right list and nothing else is, and the modes are the ones sent. A datagram that is shorter than a state is never turned into a state, and a printed list of errors names exactly the active ones in a well-formed list.',
  ['inputs'], 'for all contents of the state datagram',
  'The tests decode one state filled with simple values; the datagram has over 4000 bits per field group and 41 flags per error list.',
  ['src/robot/robot_state.rs', 'src/robot/types.rs', 'src/robot/errors.rs', 'src/robot/error.rs', 'src/gripper/gripper_state.rs', 'src/gripper/types.rs', N],
  [('conversion of the wire state', 'src/robot/robot_state.rs: From<RobotStateIntern>'), ('error flags', 'src/robot/errors.rs, src/robot/error.rs'), ('gripper state', 'src/gripper/gripper_state.rs'), ('decoding', 'src/network.rs: udp_blocking_receive')],
  'RobotState and GripperState returned by read/read_once')
P('C03', 'A refused command is an error that says why, a successful one is not',
  'A service call returns Ok exactly when the reply says success; every other status is returned as a command error whose text names the reason (wrong mode, invalid argument, reflex, user stop, aborted, ...). Gripper calls return Ok(true), Ok(false) or an error for success, unsuccessful and failure, and a returned virtual wall contains the values of the reply.',
  ['inputs', 'configurations'], 'for every call and every status value and content of the reply',
  'Tests cover the success replies of a few calls.',
  [R, G, I, 'src/robot/service_types.rs', 'src/gripper/types.rs', 'src/exception.rs'],
  [('status handling', 'src/robot.rs: handle_* ; src/robot/robot_impl.rs: handle_command_response_*'), ('gripper status', 'src/gripper.rs: handle_response_status')],
  'results of the calls')
P('C04', 'Replies are matched to requests however TCP cuts or joins them',
  'The result of a call is decided by the reply that carries the id of its request, for every way the byte stream is cut into segments or several replies arrive together, and whatever replies to other requests come before or after it. No such delivery makes a call hang, crash or return another request\'s result, and the replies left over by one call do not disturb the following calls.',
  ['schedules', 'inputs'], 'for all segmentations of a reply into up to three pieces, up to two foreign replies before and after, joined or separate, and any status',
  'Tests deliver each reply whole and alone.',
  [N], [('reassembly and matching', 'src/network.rs: tcp_read_from_buffer, wait_for_response_to_arrive, tcp_receive_response')],
  'results of the calls, hang or panic')
P('C05', 'States are never old, torn or reordered',
  'Every state delivered by reading or to a control callback is the content of one received datagram, is strictly newer than the state delivered before, and is the newest of the datagrams that were waiting when the control loop or the continuous read looked. Reordered and duplicated datagrams are skipped, and a state requested once is received after the request.',
  ['schedules', 'inputs'], 'for all orders and all ids of up to three datagrams waiting or arriving, and their contents',
  'Tests send states in order, one at a time.',
  [I, N], [('choice of the newest state', 'src/robot/robot_impl.rs: receive_robot_state, read_once'), ('datagrams', 'src/network.rs: udp_receive, udp_blocking_receive')],
  'states handed to callbacks or returned')
P('C06', 'Each control cycle sends one complete command answering the newest state',
  'While a motion runs, each callback result is answered by exactly one command datagram sent to the robot, carrying the id of the newest state received, the values the callback returned (with filter and rate limiter off) in the fields of that interface, the elbow only if one was given, and zeros in all other fields.',
  ['inputs', 'histories'], 'for all commanded values and state ids, all nine control interfaces, several cycles',
  'Tests look at one cycle of single interfaces with fixed values.',
  [I, CL, CTL, N, 'src/robot/types.rs'], [('command assembly', 'src/robot/robot_impl.rs: send_robot_command'), ('conversion', 'src/robot/control_types.rs: convert_motion; src/robot/control_loop.rs: spin_*')],
  'datagrams sent to the robot')
P('C07', 'Rate-limited torques never change faster than the robot allows',
  'With rate limiting on, each commanded joint torque differs from the robot\'s last commanded torque by no more than the maximum torque rate times one millisecond, a requested torque within that distance is sent unchanged, and otherwise it moves by exactly the maximum in the requested direction.',
  ['inputs'], 'for all torques (up to 1000 Nm) and last commanded torques (up to 100 Nm) of all joints, all five interfaces with torques, with and without the filter',
  'Tests probe single values on each side of the limit.',
  [LIM, CL, CTL], [('torque limiter', 'src/robot/rate_limiting.rs: limit_rate_torques'), ('use', 'src/robot/control_loop.rs: convert_torques')],
  'tau_J_d of the command datagrams')
P('C08', 'Rate-limited joint motions respect velocity, acceleration and jerk',
  'With rate limiting on, the joint velocity, acceleration and jerk implied by a commanded joint position or velocity relative to the robot\'s last command stay within the documented limits of each joint whenever the last command was consistent with them, and a request that keeps well inside all limits is sent unchanged.',
  ['inputs', 'histories'], 'for all requested values and all consistent last commands, every joint, all four joint interfaces, with and without the filter',
  'Tests probe single values on each side of each limit.',
  [LIM, CL, CTL], [('joint limiters', 'src/robot/rate_limiting.rs: limit_rate_joint_positions, limit_rate_joint_velocities'), ('use', 'src/robot/control_types.rs: convert_motion')],
  'q_c, dq_c of the command datagrams')
P('C09', 'Rate-limited Cartesian motions respect velocity, acceleration and jerk',
  'With rate limiting on, the translational and rotational velocity, acceleration and jerk implied by a commanded twist or pose relative to the robot\'s last command, and those of a commanded elbow, stay within the documented limits whenever the last command was consistent with them; a request well inside all limits is sent unchanged.',
  ['inputs', 'histories'], 'for all requested values and consistent last commands',
  'Tests probe single values along one axis.',
  [LIM, CL, CTL], [('Cartesian limiters', 'src/robot/rate_limiting.rs: limit_rate_cartesian_velocity, limit_rate_cartesian_pose, limit_rate_position'), ('use', 'src/robot/control_types.rs: convert_motion')],
  'O_T_EE_c, O_dP_EE_c, elbow_c of the command datagrams')
P('C10', 'The low-pass filter is the documented first-order filter',
  'With a cutoff frequency below the maximum every commanded value is filtered against the robot\'s last commanded value of the same quantity with the documented first-order gain: it lies between that value and the request, is the request if both agree, orientations are interpolated on the shortest arc, and at the maximum cutoff the request is sent unfiltered. The public filter functions refuse non-finite values, negative sample times and cutoff frequencies that are not positive and finite.',
  ['inputs'], 'for all values and last commands, cutoff frequencies from 0.01 Hz up, all nine interfaces; a set of orientation pairs',
  'Tests check a handful of points.',
  [LPF, CL, CTL], [('filter', 'src/robot/low_pass_filter.rs'), ('use', 'src/robot/control_types.rs: convert_motion; src/robot/control_loop.rs: convert_torques')],
  'command datagrams')
P('C11', 'No invalid command ever reaches the robot',
  'A command datagram never contains a NaN or infinity, a pose whose last row is not 0, 0, 0, 1 or whose rotation has rows or columns that are not of unit length, or an elbow whose flip direction is not plus or minus one, whatever the callbacks return and whether or not filter and rate limiter are on. Finite values of ordinary size that form a valid pose and elbow are not rejected.',
  ['inputs'], 'for every non-finite value at every place of every interface, with filter and limiter on or off; for all finite values of single pose elements (unfiltered) and all elbow flip values',
  'Tests cannot enumerate the bit patterns.',
  [CTL, CL, LIM, 'src/robot/control_tools.rs', 'src/utils.rs'], [('checks', 'src/robot/control_tools.rs, src/robot/rate_limiting.rs, src/robot/control_types.rs: convert_motion')],
  'command datagrams')
P('C12', 'A motion follows the start, run and finish protocol',
  'A motion call runs its callback only after the robot accepted the motion and reports it running, hands it a time step of zero first and then exactly the time between the states it saw, announces the end after the callback asks for it until the robot has stopped, and returns Ok only if the robot then reports success. A refused motion runs no callback and sends no command, no motion is requested while the robot reports one running, and motions can follow one another.',
  ['histories', 'schedules', 'inputs'], 'for all interfaces, numbers of cycles, start and finish delays within the bounds, all state time gaps and all final statuses',
  'Tests run one short motion against a mock with fixed behaviour.',
  [CL, I, 'src/robot/robot_control.rs', R], [('loop', 'src/robot/control_loop.rs: start, spin_motion, do_loop'), ('protocol', 'src/robot/robot_impl.rs: start_motion, finish_motion')],
  'callbacks, requests, datagrams, result')
P('C13', 'A failed motion comes with the last states and commands, in order',
  'The log in the error of a failed motion holds the last states received and commands sent during that motion, oldest first, paired as they occurred, complete, and at most as many as configured.',
  ['histories', 'configurations'], 'for all log sizes and motion lengths within the bounds',
  'Tests never inspect a wrapped log after a failure.',
  ['src/robot/logger.rs', I], [('log', 'src/robot/logger.rs'), ('use', 'src/robot/robot_impl.rs: update, create_control_exception')],
  'log of the returned error')
P('C14', 'The point-to-point generator starts at rest and ends exactly at the goal',
  'The joint motion used to move to a goal starts at the robot\'s current commanded joint positions, stays between start and goal of every joint, never exceeds the speed that the speed factor allows, is finished exactly once the goal is reached, and then holds the goal. A goal equal to the start finishes at once.',
  ['inputs', 'histories'], 'for all start and goal positions, speed factors and times within the bounds',
  'Tests sample single trajectories.',
  ['src/utils.rs', R], [('generator', 'src/utils.rs: MotionGenerator'), ('use', 'src/robot.rs: joint_motion')],
  'commanded joint positions')
P('C15', 'Total load is the physical combination of end effector and load',
  'The total mass reported in a state is the sum of end effector and load mass, the total center of mass is their mass-weighted mean, and the total inertia is the parallel-axis combination of both about it; massless parts contribute nothing.',
  ['inputs'], 'for all masses, centers of mass and inertias in the stated ranges',
  'Tests check one combination.',
  ['src/robot/robot_state.rs', 'src/utils.rs'], [('combination', 'src/robot/robot_state.rs: combine_*')],
  'm_total, F_x_Ctotal, I_total of the state')
P('C16', 'The model calls the right library function with the right quantities',
  'Every model query calls the function of the loaded library that belongs to the requested frame and quantity, passes exactly the caller\'s values or, for the variants that take a state, the fields of that state (total mass, center of mass and inertia for dynamics), and returns the complete result unchanged. A library without one of the functions is reported as a model error.',
  ['inputs', 'configurations'], 'for all values, all frames and all queries',
  'Tests only check that a model can be loaded.',
  ['src/model.rs', 'src/model/model_library.rs'], [('queries', 'src/model.rs'), ('bindings', 'src/model/model_library.rs')],
  'arguments received by the library, returned matrices')
P('C17', 'Loading the model stores exactly what the robot sent',
  'Loading the model asks the robot for the library of this platform, stores all bytes of the reply and nothing else, and loads that file; a library that is already there is used without download. The file remains only if it was requested to be persistent, and a refusal by the robot is reported as a model error without leaving a file.',
  ['inputs', 'fault_sequences', 'configurations'], 'for all library contents and statuses, partial writes, with and without an existing file',
  'Tests do not download.',
  [I, 'src/model/library_downloader.rs', N], [('download', 'src/model/library_downloader.rs'), ('load', 'src/robot/robot_impl.rs: load_model')],
  'file contents, requests, result')
P('C18', 'Connecting negotiates the version and the data port',
  'Connecting contacts the given host at the robot\'s or the gripper\'s port, announces this library\'s protocol version and the UDP port on which it really listens, and succeeds exactly when the server accepts; otherwise the error names both versions. The server version is the one received.',
  ['inputs'], 'for all status, version and port values',
  'Tests use one version.',
  [N, I, G, R], [('connect', 'src/robot/robot_impl.rs: connect_robot; src/gripper.rs: connect_gripper; src/network.rs: new')],
  'connect request, result')
P('C19', 'Enforced realtime means realtime or an error before any motion',
  'With realtime enforced, a control call runs its callbacks only on a realtime kernel after the thread got first-in-first-out scheduling at (at least) one below the highest priority and its memory was locked; if any of this fails the call returns a realtime error and no motion is requested. With realtime ignored none of these failures matters.',
  ['fault_sequences', 'configurations'], 'for all combinations of failing operations and all control interfaces',
  'Tests run with realtime ignored.',
  [CL, 'src/robot/control_tools.rs'], [('realtime setup', 'src/robot/control_tools.rs: set_current_thread_to_realtime, has_realtime_kernel; src/robot/control_loop.rs: new')],
  'scheduler calls, requests, result')
P('C20', 'Pose conversions keep the layout and the values',
  'Arrays are read as column-major homogeneous transformations and written back unchanged, and the isometry of an array has its translation and its rotation, also for rotations by 180 degrees.',
  ['inputs'], 'for all translations and matrix elements; a set of rotations including those by 180 degrees',
  'Tests convert single matrices.',
  ['src/utils.rs'], [('conversions', 'src/utils.rs')],
  'returned values')
P('C21', 'A lost connection is an error, never a hang or a crash',
  'When the connection cannot be established, is closed before or in the middle of a reply, cannot be written to, or no state arrives in time, the affected call (connecting, service call, reading, or control) returns a network error, and so do later calls on the dead connection.',
  ['fault_sequences', 'crash_points'], 'for every call, every byte position of the cut in a reply, and every kind of loss',
  'Tests do not break connections.',
  [N, I, G, R], [('receiving', 'src/network.rs: tcp_read_from_buffer, udp_blocking_receive'), ('connecting', 'src/network.rs: new; src/robot/robot_impl.rs: new')],
  'results of the calls')
P('C22', 'A failing motion is stopped and reports its original cause',
  'When a motion fails because the robot aborts it, a state is invalid or missing or a command cannot be sent, no further callback runs and no further command is sent, a stop is requested and the end of the motion awaited, and the error returned is the original cause (for a reflex with the names of its causes), whatever happens to the stop request. The connection can be used for further calls and motions afterwards.',
  ['fault_sequences', 'histories', 'inputs'], 'for all final statuses, stop statuses, robot modes and failure points within the bounds',
  'Tests do not let motions fail.',
  [CL, I], [('failure path', 'src/robot/control_loop.rs: spin_*, do_loop; src/robot/robot_impl.rs: cancel_motion, throw_on_motion_error')],
  'requests, datagrams, result')

NA = {}
TECH = 'symbolic execution of the LLVM IR of the real code, SMT (Z3)'
NOTE = ('Bounded: every path of the harness within the bounds in DESIGN.md and the evidence file is executed symbolically on the optimised LLVM IR of '
        '/repo and every assertion decided by Z3; counterexamples are replayed natively. Trusted: rustc/LLVM, the executor in engine/ (validated by '
        'replaying path models natively), Z3, the model of sockets, files and scheduler in harness/src/env.rs.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for k in sorted(T):
            f.write(json.dumps(T[k]) + '\n')
    checks, na = [], []
    for k in sorted(T):
        if k in props.PROPS:
            checks.append({'property': k, 'quick_cmd': 'python3-vt check.py %s --tier quick' % k,
                           'thorough_cmd': 'python3-vt check.py %s --tier thorough' % k,
                           'technique': TECH + props.PROPS[k].get('tech', ''), 'level': 'model_checking', 'level_note': NOTE,
                           'evidence_file': 'evidence/%s.json' % k})
        else:
            na.append({'property': k, 'reason': NA.get(k, 'the check is not built yet')})
    m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'See DESIGN.md. No hooks are needed: the harness uses the public API over a modelled operating system.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

NOTE = {
 'C01': 'all interleavings of arming, modes, references, parameter changes and updates',
 'C02': 'all call sequences against an independent cascade run in lockstep',
 'C03': 'all sequences of setters, mode changes and arming against a reference automaton',
 'C04': 'all flights and call sequences around the floor against a reference step',
 'C05': 'all starts, commands and vehicles of a lattice against an independent Newton-Euler step',
 'C06': 'all step lengths and rejected steps against closed forms and lockstep twins',
 'C07': 'all motor settings, speeds and command histories against a clamped first-order lag',
 'C08': 'all attitude and rate histories against an independent quaternion integration',
 'C09': 'all rotor geometries of a lattice against wrenches computed rotor by rotor',
 'C10': 'all histories of valid and invalid parameter updates against a twin that never saw the invalid ones',
 'C11': 'all geometries and demands, multiplied back to the wrench they deliver',
 'C12': 'all call histories against an independent scalar PID law per axis',
 'C13': 'all outputs, limits and limit changes against the interval itself',
 'C14': 'all error sequences against an integrator automaton with anti-windup',
 'C15': 'all histories of a vector PID against scalar PIDs run in lockstep',
 'C16': 'all histories followed by a reset against newly built controllers',
 'C17': 'all accelerations, attitudes, headings and gains against the geometric law',
 'C18': 'all call sequences on twins and all interleavings of two simulators',
 'C19': 'all noise histories against the same random draws made independently',
 'C20': 'all sensor histories against an independent sensor model with the same draws',
 'C21': 'all measurement histories against an independent integration',
 'C22': 'all flights of a vehicle against what ideal sensors on it would read',
 'C23': 'all flights in both precisions and with added or permuted rotors, compared pairwise',
 'C24': 'all modes, gains, attitudes and call sequences against the yaw rule',
 'C25': 'all histories with every query in every form after each call, under address and undefined behaviour sanitizers',
 'C26': 'all states of a lattice written, parsed back and compared column by column',
 'C27': 'all sequences of control calls against stand-alone stages fed with the reported set-points',
 'C28': 'all flights of the alphabet against their shifted and turned images',
 'C29': 'all histories with components replaced at every point against simulators assembled that way',
 'C30': 'all starts, references and mode switch sequences flown to convergence',
 'C31': 'all values of a lattice for all vector lengths',
 'C32': 'all construction forms and all histories around a copy, under address and undefined behaviour sanitizers',
}
DESIGN = {
'C01': '''Explored: every sequence of arm, disarm, control and dynamics updates, mode changes, reference setters, floor switches and parameter replacements, from
every mode. Judged after every call: commanded speed is exactly zero when it has to be; a control update while disarmed leaves references, modes and controller
memory bit-equal. Tests arm once at the start; a command that survives disarming needs a particular order of calls.''',
'C02': '''Explored: every sequence of mode changes, references, control and dynamics updates (single calls, and composites such as "switch, set reference, update");
flights with a bounded number of departures at any moment; contacts with the floor; every number of the configuration unusual in turn. Oracle: `ref::Cascade`, written from
the documented control laws without Eigen or repository code, run in lockstep, so the controller memory shared between modes is checked too.''',
'C03': '''Explored: every ordered pair of (mode, yaw mode), every setter sequence, armed or not, on and off the floor. Oracle: an automaton of the references (a few assignments
per call). All references are compared after every call, so a setter that touches a neighbour is seen at once.''',
'C04': '''Explored: all starts around the floor x commands x steps; call sequences with the floor switched and moved; flights with departures; noise on and off. Oracle: a reference step of
the dynamics plus the contact rule; free flight is compared bit by bit with a simulator without floor; controller memory is probed by running copies of the controllers.''',
'C05': '''Explored: lattices of attitude, velocity, rates, motor speeds, commands, external force, step and four vehicles; every number of vehicle, state and command unusual, in pairs; step
sequences; long runs. Oracle: `ref::step`, an independent explicit Euler step of the documented equations. Tests check single terms at rest or aligned with the axes.''',
'C06': '''Explored: step lengths from nanoseconds to minutes, rejected steps (zero, negative) at every position of a call sequence, splitting of steps. Oracle: closed forms that make the
simulated time visible (constant motion), and bit-equality with a twin that never saw the rejected call.''',
'C07': '''Explored: motor settings (limits of either sign, equal limits, time constants), start speeds, command sequences, both precisions. Oracle: the clamped lag in closed form per step.''',
'C08': '''Explored: attitude x rate x step lattices, sequences, endurance runs of tens of thousands of steps. Oracle: unit norm after every step and an independent quaternion step.''',
'C09': '''Explored: one to eight rotors with every spin, place, tilt and coefficient, provided layouts, sequences of parameter updates. Oracle: force and r x F summed rotor by rotor, both for
the reported matrices and for the wrench of every motor speed pattern.''',
'C10': '''Explored: every single and double invalidity in every field and rotor, on construction and update, between valid updates. Oracle: a twin that never received the invalid update, compared on
all getters, on the wrench and on the following random draws.''',
'C11': '''Explored: quadrotor geometries x demands x gains; simulated stacks in all modes; call histories. Oracle: the commanded speeds, squared with their sign and multiplied by the mixing matrix computed from the
geometry, give back thrust and torque.''',
'C12': '''Explored: all histories of both call forms, resets and gain changes for the scalar PID and vector PIDs of 1 to 6 axes; values over six orders of magnitude; long runs with departures; the error helpers.
Oracle: `ref::Pid1`, a scalar law with explicit memory.''',
'C13': '''Explored: limit pairs of every sign x outputs around, at and far beyond each limit, plain and proportional; all sequences of limit changes and calls. Oracle: the interval; unchanged inside; same direction when
proportional.''',
'C14': '''Explored: all error sequences over signed, zero, tiny and huge errors x anti-windup limits x flags; mixed calls; saturated outputs; long windups. Oracle: an integrator automaton; the reported integral
term is divided out and compared.''',
'C15': '''Explored: histories with distinct values per axis for 1 to 6 axes. Oracle: scalar PIDs in lockstep, and isolation runs in which one axis changes and the others must stay bit-equal.''',
'C16': '''Explored: every history of calls and settings, then a reset, then every continuation, against a newly built PID, one built from the settings read back, and (for the stack) a new controller. Every
setting is read back through every getter after every write.''',
'C17': '''Explored: accelerations x attitudes x yaw x gain matrices (also full ones) x mass x gravity. Oracle: the geometric attitude law computed from rotation matrices; metamorphic relations (yaw turns).''',
'C18': '''Explored: twins over all call sequences; ALL interleavings of two simulators\' operations, each against the same simulator run alone (this is where hidden shared state shows); copies after every history; all pairs of
seeds. This is the schedule dimension of a library without threads.''',
'C19': '''Explored: strengths x seeds x step sequences with noise switched at every point. Oracle: the same engine and distribution driven independently, compared draw by draw, plus summary statistics over long runs that do not
depend on the draw order. Known finding `moment-noise-unused`.''',
'C20': '''Explored: mountings, motions, biases, settings changed between updates, resets. Oracle: an independent sensor model using the same engine; where the order of the draws is not part of the promise, differences and
statistics are used.''',
'C21': '''Explored: filters x start attitudes x sequences of measurements, resets and restarts; endurance. Oracle: an independent integration with its own quaternion algebra.''',
'C22': '''Explored: flights over all commands, attitudes, vehicles, steps and floor contacts. Oracle: ideal sensors computed from the vehicle state, and odometry compared with the true path.''',
'C23': '''Explored: pairs of runs: float and double, extra rotors without thrust at every place, permuted rotors, 3 to 8 rotors, scalar against one-axis PID. Judged by agreement within rounding.''',
'C24': '''Explored: modes x gains x attitudes x rates x arming; all call sequences; the conversion on its own. Oracle: the rule in one line.''',
'C25': '''Explored: histories of simulator, setters by reference and pointer, sensors and stages; after each call every query in every form (by value, by reference, through const references bound to temporaries), twice, with a
bit-equality check that nothing moved. Built with address and undefined behaviour sanitizers, so a dangling reference is a violation. Known finding `attitude-stage-thrust-never-stored`.''',
'C26': '''Explored: every pair of fields holding every value, attitudes all around, non-finite values, 1 to 8 rotors, both precisions, three stream formats, odometry histories, flights. Oracle: the text is parsed back and compared
column by column (rows) or name by name (labelled printouts).''',
'C27': '''Explored: sequences of the five control calls, the single conversions, parameter changes of each stage and resets, for four and six rotors. Oracle: stand-alone stages fed with what the stack reports, and `ref::Cascade`
for absolute values.''',
'C28': '''Explored: flights in all modes with all references, each next to its image under shifts and quarter turns. Metamorphic: no reference model is needed, so it is independent of `ref.hpp`.''',
'C29': '''Explored: replacement of each component at every point of call sequences and flights. Oracle: a simulator assembled from the new parameters and driven to the same point, other components compared bit by bit.''',
'C30': '''Explored: start x reference x yaw x mode lattices, switch sequences, take-offs, circular and helical trajectories, each simulated to convergence. Judged by reaching and staying in a ball around the reference. Liveness is
decided by bounded horizon (times in the evidence).''',
'C31': '''Explored: values of every sign and size for lengths 1 to 8 and both precisions. Oracle: oddness, monotonicity, inverse relation, exact clamping.''',
'C32': '''Explored: for each of twelve classes, all construction forms followed by all operation sequences, and all histories around seven kinds of hand-over with operations on original and copy in any order. Oracle: objects rebuilt
from scratch and driven through the same history; everything that can be queried is compared bit by bit. Sanitizers catch copies that refer to a dead original.''',
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only to make editing easier)."""
import json, os
S='multirotor_simulator/multirotor_simulator.hpp'
D='multirotor_simulator/multirotor_dynamic_model/dynamics.hpp'
M='multirotor_simulator/multirotor_dynamic_model/model.hpp'
ST='multirotor_simulator/multirotor_dynamic_model/common/state.hpp'
U='multirotor_simulator/multirotor_dynamic_model/common/utils.hpp'
I='multirotor_simulator/imu_simulator/imu.hpp'
O='multirotor_simulator/imu_simulator/inertial_odometry.hpp'
C='multirotor_simulator/multirotor_controllers/multirotor_controllers.hpp'
CC='multirotor_simulator/multirotor_controllers/controllers/'
A=CC+'acro_controller.hpp'; N=CC+'indi_controller.hpp'
PC=CC+'position_controller.hpp'; VC=CC+'velocity_controller.hpp'; TC=CC+'trajectory_controller.hpp'
P='pid_controller/include/pid_controller/pid.hpp'; P1='pid_controller/include/pid_controller/pid_1d.hpp'
props=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    a.update({k:[v] for k,v in kw.items()})
    props.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','A disarmed vehicle is never commanded to spin its motors',
 'A simulator starts disarmed, and at every moment after disarming, or after a control update made while disarmed, the commanded speed of every motor is exactly zero. This holds in every control and yaw mode, whatever references are set, whatever the vehicle is doing and however arming, disarming, mode changes and updates are interleaved. Control updates made while disarmed change nothing else: not the references, not the modes, not the internal state of the controllers.',
 ['histories','inputs'],'all interleavings of arm, disarm, mode changes, reference changes, control and dynamics updates, in every mode',
 'Tests arm once and disarm once; the guarantee is about every interleaving, including disarming in the middle of a flight and control updates before the first arming.',
 [S],[('disarmed branch of update_controller',S+': Simulator::update_controller'),('disarm',S+': Simulator::disarm'),('arm',S+': Simulator::arm')],observe_at='commanded motor speeds reported by the simulator')

p('C02','Every control mode commands exactly what its own cascade computes',
 'While armed, each control update commands the motor speeds that the documented cascade of the active mode yields for the true vehicle state, the current references and the time step: motor speeds are passed through, acro tracks thrust and body rates, velocity, position and hover go through their loops, and trajectory combines position, velocity and acceleration feed-forward. References that belong to other modes, and what other modes did before, have no influence beyond the controller memory that the modes share. An update changes only the command, the controller memory and (in yaw rate mode) the yaw reference.',
 ['histories','inputs'],'all sequences of mode changes, reference changes and updates up to the bound, in every mode, against an independent cascade',
 'Tests fly a few scripted missions with one set of gains and check the end point; a leaked reference or a wrong state fed to one loop only shows in particular mode sequences.',
 [S,C,A,N,PC,VC,TC],[('mode dispatch',S+': Simulator::update_controller'),('cascade',C+': Controller::compute_*_control'),('loops',CC)],observe_at='commanded motor speeds after each control update')

p('C03','Changing mode captures the current pose; setters touch only their reference',
 'Entering a different control mode or yaw mode makes the current position and yaw the references and clears the velocity, acceleration, thrust and body-rate references, while requesting the mode already active changes nothing at all. Each reference setter changes exactly the references it names, in every mode and whether armed or not, and they stay until the next setter, mode change or arming. Arming only sets the thrust reference to 9.81, clears the body-rate reference and puts the height reference at the floor height.',
 ['histories','inputs'],'all sequences of setters, mode changes, arming and updates up to the bound; all ordered pairs of modes',
 'There are 12 mode combinations and 144 ordered transitions, each of which must leave every one of eight references right after any history.',
 [S],[('set_control_mode',S+': Simulator::set_control_mode'),('reference setters',S+': Simulator::set_reference_*'),('arm',S+': Simulator::arm')],observe_at='reference getters of the simulator')

p('C04','The floor is never penetrated and contact stops the vehicle cleanly',
 'With the floor enabled, after every dynamics update the vehicle is at or above the floor height; if the step would have ended below it, the height becomes the floor height, the horizontal position, attitude, total force and torque and motor state are those of the step, all velocities and accelerations are zero, the IMU reading and bias are zeroed and the odometry restarts at zero from the vehicle attitude. A vehicle that was below the floor before the step is additionally supported by its weight during that step, and process noise is off in a step that follows a contact. Without the floor, or above it, updates are exactly those of free flight, and no support force outlives the step that needed it. References, modes, arming, commands and the controllers are never touched by a dynamics update.',
 ['histories','inputs'],'all sequences of floor enabling, disabling, raising, flight and contact steps up to the bound, over heights, velocities, attitudes and step lengths',
 'The tests let a vehicle sit on the floor; leftover support forces, missed contacts in long steps and raising the floor under the vehicle need specific sequences.',
 [S,D],[('floor logic',S+': Simulator::update_dynamics'),('enable/disable',S+': Simulator::enable_floor_collision, disable_floor_collision')],observe_at='vehicle state, IMU and odometry after each dynamics update')

p('C05','A dynamics step obeys the Newton-Euler equations of the documented model',
 'For every vehicle and state, one short step changes the state as explicit Euler integration of the rigid-body equations: acceleration is (rotor thrust in the world frame + mass times gravity + quadratic per-axis drag + disturbances) over mass, angular acceleration is the inverse inertia times (rotor torque including rotor inertia + aerodynamic moment - gyroscopic coupling), and position, velocity, attitude, body rates and motor speeds advance from the values before the step. The reported total force, torque and accelerations are those used in the step. It holds for any mass, full inertia matrix, gravity vector, rotor geometry and external force.',
 ['inputs','histories','configurations'],'all combinations of the vehicle, state, command, external force and step lattices, and all command sequences up to the bound',
 'Tests use mass 1, diagonal inertia and mostly zero rates, so a wrong factor, frame or order of integration cancels out.',
 [D,M,U],[('process_euler_explicit',D+': Dynamics::process_euler_explicit'),('force and moment models',M+': get_drag_force, get_aerodynamic_moment, get_torque_by_motors')],observe_at='vehicle state after the step')

p('C06','A dynamics update simulates exactly the time requested, or rejects it',
 'Updating the dynamics by any positive time advances the vehicle by exactly that time, however long: uniform motion covers velocity times time, a constant force changes the velocity by acceleration times time, and a long update gives the result of the same motion integrated in equal internal steps no longer than 0.01 s. A zero or negative time is rejected with an invalid-argument error and leaves the vehicle state untouched, and later updates behave as if the rejected call had never happened.',
 ['inputs','histories'],'a lattice of thousands of step lengths from microseconds to seconds (multiples of 0.01 s, their neighbours, and non-multiples) and all short sequences mixing good and bad steps',
 'The tests only use steps up to 0.01 s or exact multiples; rounding the number of internal steps only shows for other lengths.',
 [D,S],[('step splitting and validation',D+': Dynamics::process_euler_explicit'),('forwarding',S+': Simulator::update_dynamics')],observe_at='vehicle state before and after an update')

p('C07','Motors follow a first-order lag and never leave their speed limits',
 'After every dynamics step each motor speed lies within that motor\'s own minimum and maximum, for any command, including commands and initial speeds far outside the limits and steps longer than the time constant. Within the limits the speed moves with acceleration (limited command - current speed) / time constant, each motor with its own parameters and independent of the other motors, and this acceleration is the one reported.',
 ['inputs','histories','configurations'],'all command sequences over an alphabet with in-range, boundary and out-of-range values for each motor, all step lengths of the lattice, 4 and 6 motors',
 'Tests use identical motors with equal limits; a swapped index, shared limit or missing clamp only shows with distinct motors and extreme commands.',
 [D,M],[('clamp and lag',D+': clamp_motors_angular_velocity, get_motors_angular_velocity_derivative')],observe_at='motor speeds and accelerations in the vehicle state')

p('C08','Orientation stays a unit quaternion and integrates the body rates',
 'After any number of steps, at any body rate and step length, the vehicle attitude and the odometry attitude are unit quaternions, and each step turns them by the body rates expressed in the body frame to first order in the step. Attitudes convert to roll, pitch and yaw that reproduce the same rotation (where roll and yaw are defined, that is, away from +-90 degrees of pitch), with angles in range, valid numbers and the right pitch even at +-90 degrees, and no dependence on the sign or scale of the quaternion.',
 ['inputs','histories'],'all attitudes and body rates of the lattice, all rate sequences up to the bound, long traces of tens of thousands of steps',
 'Drift of the norm and frame mix-ups appear only over many steps or at combined rotations; the tests rotate about single axes from identity.',
 [D,U,ST,O],[('quaternion derivative and integration',U+': get_quaternion_derivative, get_quaternion_integrate'),('vehicle attitude',D+': process_euler_explicit'),('odometry attitude',O+': integrate_measurement'),('Euler angles',ST+': quaternion_to_Euler')],observe_at='attitude getters')

p('C09','Motor speeds map to body wrench as the rotor geometry dictates',
 'For any number, position, tilt, spin direction and coefficients of the rotors, the total force and torque on the body are the sum over rotors of thrust along the rotor axis, its lever arm moment, the drag torque along the axis with the sign of the spin, and the rotor inertia torque; thrust and torque grow with the square of the speed and keep its sign. All mixing matrices the model reports agree with this map, and the provided quadrotor and hexarotor layouts are balanced: equal speeds give pure vertical thrust.',
 ['inputs','configurations'],'all combinations of the rotor pose, coefficient, spin and speed lattices, for 1 to 8 rotors',
 'The tests only evaluate the standard flat layouts with identical rotors.',
 [M,U],[('mixing matrices',M+': compute_mixer_matrix_4D, compute_mixer_matrix_6D, compute_mixer_inertia_matrix'),('wrench',M+': get_force_vector_thrust_by_motors, get_torque_by_motors, get_force_thrust_by_motors'),('layouts',M+': create_quadrotor_x_config, create_quadrotor_plus_config, create_hexacopter_config')],observe_at='force and torque functions and matrix getters of the model')

p('C10','Invalid vehicle parameters are rejected as a whole',
 'A parameter update with a negative mass, negative drag, an inertia or aerodynamic matrix of negative determinant, or any rotor with a negative coefficient, inertia or time constant or a maximum speed below its minimum, leaves the model exactly as it was in everything it reports and computes. Every other update replaces all parameters and derived matrices at once, so that the model is indistinguishable from one built with them, apart from its random sequence. This holds for any sequence of good and bad updates and whichever rotor is at fault.',
 ['inputs','histories','fault_sequences'],'all single faults in every field and rotor, pairs of faults, and all sequences of good and bad updates up to the bound',
 'Partial application needs a sequence (good, bad, query) for each of the fields and rotors; tests check that a few bad values are noticed.',
 [M],[('validation',M+': Model::check_params'),('atomic update',M+': Model::update_params')],observe_at='all getters and functions of the model before and after the update')

p('C11','Commanded motor speeds deliver exactly the requested thrust and torque',
 'For every quadrotor whose rotors are aligned with the body axis, the motor speeds the rate controller commands produce, through the vehicle model, the requested collective thrust and the torque inertia times commanded angular acceleration plus the gyroscopic term of the desired rates, even when single rotors must push downwards. The computed inverse allocation is the exact inverse of the geometry.',
 ['inputs','configurations'],'all combinations of the geometry, inertia, thrust, rate and gain lattices, including reverse thrust',
 'Round trips must hold for every geometry and request; tests compare a handful of hard-coded numbers for one frame.',
 [N,M,C],[('inverse allocation',N+': compute_quadrotor_mixer_matrix_inverse'),('allocation',N+': IndiController::acro_to_motor_angular_velocity')],observe_at='commanded speeds fed to the force and torque functions of the model')

p('C12','The PID output follows the discrete PID law for every call history',
 'At every call the output is Kp e + Ki (sum of e dt since the last reset, within the anti-windup limit) + Kd d, per axis, where d is the low-pass filtered difference quotient of the error, or the supplied error derivative when one is given; the first call after construction or reset has an empty sum before it and a zero difference. The law holds across mixed use of both call forms, varying time steps, gain changes and resets, and the three reported contributions add up to the unsaturated output. The error helpers yield reference less state, and reference derivative less state derivative.',
 ['histories','inputs'],'all sequences of both call forms, gain and filter changes and resets up to the bound over an error and time-step alphabet, plus long traces with up to two deviations',
 'The state is a history of calls; tests make two or three calls with one fixed step.',
 [P,P1],[('compute_control',P+': PID::compute_control'),('integral and derivative',P+': compute_integral_contribution, compute_derivative_contribution_by_deriving'),('1-D',P1+': PID')],observe_at='PID output and contribution getters')

p('C13','PID output never leaves its saturation limits',
 'While output limits are active, every axis of every output lies within its limits, for any errors, gains, history and limit pairs (around zero for proportional scaling), and an output already within the limits is not altered. Plain saturation clips each axis on its own; proportional saturation scales the whole vector by the largest factor in [0, 1] that fits, so its direction is kept. Limits with an upper value not above the lower one are refused and turn saturation off, and disabling limits restores the unlimited output.',
 ['inputs','histories'],'all output and limit vectors of the lattice for 1 to 4 axes, and all sequences of enabling, refusing, disabling and computing up to the bound',
 'Proportional scaling interacts between axes in order; only exhaustive sign and magnitude patterns show an axis left outside.',
 [P,P1],[('saturate_output',P+': PID::saturate_output'),('set_output_saturation',P+': PID::set_output_saturation'),('1-D',P1+': PID::saturate_output')],observe_at='PID output')

p('C14','PID integral respects anti-windup and releases at once on sign change',
 'With an anti-windup limit the integrated error of each axis never exceeds the limit in magnitude, recovers as soon as the error reverses (the excess is not stored), and follows the plain sum while inside; without a limit (and without reset) it is the plain sum. With integral reset enabled, an axis whose integral is at its limit restarts from zero when the error has the opposite sign, the other axes being unaffected; with it disabled the integral is never reset this way.',
 ['histories','inputs'],'all error sequences up to the bound over an alphabet with both signs per axis, with every combination of limit and reset flag',
 'Windup only matters after saturation and reversal, a specific multi-step history; no test enables the reset flag.',
 [P,P1],[('integral',P+': PID::compute_integral_contribution'),('1-D',P1+': PID::compute_integral_contribution')],observe_at='integral contribution getter')

p('C15','Axes of a vector PID are independent and equal scalar PIDs',
 'Each axis of a vector PID behaves exactly like a scalar PID with that axis\' gains, limits and filter fed with that axis\' errors, for every dimension and call history, as long as saturation is not proportional and limits (of output and integral) are given for all axes or for none. No value on one axis influences another.',
 ['histories','inputs'],'all call sequences up to the bound for dimensions 1 to 6, with distinct parameters per axis, both call forms, parameter changes and resets',
 'Two implementations of the same law can only be compared over all histories; tests check each against its own constants.',
 [P,P1],[('vector PID',P+': PID'),('scalar PID',P1+': PID')],observe_at='outputs and contributions of both')

p('C16','A reset controller behaves like new, and settings round-trip',
 'After a reset, a PID and the whole controller stack respond to every further call sequence exactly as freshly built ones with the same settings, whatever happened before. Settings read back equal those written, through any setter, and a controller built from them behaves identically, including whether saturation is active; changing settings takes effect on the next call and does not disturb the accumulated state.',
 ['histories','configurations'],'all call histories before the reset, all continuations and all setting changes up to the bound',
 'Leftovers such as a stale filter or accumulator only matter for some histories before the reset and some calls after it.',
 [P,P1,C,N,PC,VC,TC],[('reset',P+': PID::reset_controller; '+C+': Controller::reset_controller'),('settings',P+': PID::get_params, update_pid_params, setters')],observe_at='outputs after reset compared with a fresh controller')

p('C17','Desired acceleration maps to thrust and body rates by the geometric law',
 'For every attitude, yaw and desired acceleration, the commanded collective thrust is the projection of mass times (acceleration - gravity) on the body vertical axis and the body rates are minus the gains times the attitude error to the attitude that points the vertical axis along that force with the desired heading; if the projection is negative, thrust and rates are both zero. The thrust is never negative, rates vanish exactly at the desired attitude, and all outputs are finite even in singular directions (free fall, force along the heading, inverted flight).',
 ['inputs'],'all combinations of the attitude, yaw, acceleration, mass, gravity and gain lattices, including the singular ones',
 'The law has measure-zero singularities and sign cases over the whole rotation group; tests use identity attitude and simple inputs.',
 [A,C],[('thrust',A+': AcroController::acceleration_to_thrust'),('attitude law',A+': AcroController::yaw_angle_to_angular_velocity'),('projection and cut-off',C+': Controller::convert_linear_acceleration_to_acro')],observe_at='thrust and body rates returned')

p('C18','Simulations are reproducible from the seed and isolated from each other',
 'Two simulators built with the same parameters and seeds and driven by the same calls agree bit for bit in everything observable, with process and sensor noise enabled. A copy continues exactly like its original, and whatever is done to one simulator, model or sensor never influences another one, for every interleaving of their calls. Different positive seeds give different noise.',
 ['schedules','histories','configurations'],'all interleavings of the calls of two instances up to the bound, copies taken at every point, and all seeds of a range',
 'Hidden shared state shows only when the calls of two instances are interleaved; tests drive one instance at a time.',
 [S,M,I,D,O,C],[('per-instance generators',M+': Model::random_number_generator_; '+I+': IMU::random_number_generator_'),('instance state',S+': Simulator')],observe_at='every getter of both instances')

p('C19','Process noise has the configured strength and only acts when enabled',
 'Process noise with auto-correlation q over a step dt has standard deviation sqrt(q/dt) on every axis: for one random sequence it scales with the square root of q and inversely with that of dt, force noise acts on the linear motion and moment noise on the rotation, and the axes are distinct draws. With noise disabled or zero strength, or a non-positive step, the disturbance is exactly zero and the motion is exactly the deterministic one, whatever noise acted before.',
 ['histories','inputs','configurations'],'all sequences of noisy and noise-free steps up to the bound, over strength, step and seed lattices',
 'Scaling and isolation relate several runs with the same random sequence, which tests with a tolerance on one run cannot resolve.',
 [M,D,S],[('noise',M+': Model::set_stochastic_noise, disable_stochastic_noise'),('use',D+': Dynamics::process_euler_explicit')],observe_at='stochastic force and moment getters and the resulting motion')

p('C20','IMU readings are the true motion in the sensor frame plus bias and noise',
 'With zero noise the gyroscope and accelerometer read the true body rates and specific force rotated into the sensor mounting frame, plus the current bias, for any mounting given at construction or later; noise and bias random walk are added with the configured variances (bias increments scale with the square root of the step) and independently per axis and sensor. A non-positive step changes nothing; a reset zeroes bias and reading and keeps configuration; reseeding replays the same sequence.',
 ['histories','inputs','configurations'],'all sequences of updates, reconfigurations, resets and reseedings up to the bound over mounting, variance and step lattices',
 'Mounting rotation, bias and noise interact over a history; the tests use identity mounting or zero input.',
 [I],[('measurement',I+': IMU::process_measurement'),('bias',I+': IMU::process_bias'),('configuration',I+': setters, reset')],observe_at='IMU measurement and bias getters')

p('C21','Inertial odometry integrates filtered measurements from its start attitude',
 'Every update low-pass filters both measurements with the configured factor, rotates the acceleration into the world frame with the attitude before the step, integrates it into velocity and the new velocity into position, and turns the attitude by the filtered rates. A reset returns all outputs and filters to zero and the attitude to the configured start attitude, and setting a start attitude takes effect immediately and at later resets; after a reset it behaves like a new instance.',
 ['histories','inputs'],'all sequences of updates, resets and start attitudes up to the bound over measurement and step alphabets and filter factors, plus long traces',
 'The estimate is a product of the whole measurement history; tests make one or two updates from identity.',
 [O],[('filter',O+': filter_measurement'),('integration',O+': integrate_measurement'),('reset',O+': reset, set_initial_orientation')],observe_at='odometry getters')

p('C22','Simulated sensors and odometry agree with the simulated vehicle',
 'With ideal sensors, after every dynamics update the simulator\'s gyroscope reads the vehicle body rates and its accelerometer the total force per unit of mass in the body frame, in any attitude and for any mass. Feeding them to the odometry, which starts with the vehicle attitude, reproduces the vehicle velocity, attitude and displacement to within the integration error over a whole flight; sensor updates never influence the vehicle or the controllers.',
 ['histories','inputs'],'all flights made of the bounded command alphabet from the lattice of attitudes and masses, and every interleaving of sensor and vehicle updates up to the bound',
 'A wrong frame or scale cancels in hover and near identity attitude, which is all the tests fly.',
 [S,I,O],[('IMU feed',S+': Simulator::update_imu'),('odometry feed',S+': Simulator::update_inertial_odometry')],observe_at='IMU and odometry getters of the simulator against the vehicle state')

p('C23','Results do not depend on precision or rotor count beyond rounding',
 'Every component works in single and double precision and for any number of rotors: the same scenario in single precision follows the double precision one up to rounding, and adding rotors that produce nothing leaves the motion unchanged. Permuting the rotors of a vehicle together with their commands permutes the motor states and changes nothing else.',
 ['configurations','inputs','histories'],'all bounded scenarios of the alphabet, in both precisions, for 4, 6 and 8 rotors and a set of rotor permutations',
 'Tests instantiate double precision with four rotors almost only; errors hidden in other instantiations do not even compile there.',
 [S,C,D,M,P,P1,I,O,N,U,ST],[('templates on precision and rotor count','all headers')],observe_at='vehicle state, commands and sensor readings')

p('C24','Yaw rate mode turns the rate reference into a tracking yaw reference',
 'In yaw rate mode every armed control update sets the yaw reference to the current vehicle yaw plus the rate reference over the yaw attitude gain (the current yaw alone when the gain is zero), in every control mode; in yaw angle mode the yaw reference is never changed by an update. Disarmed updates change neither. The conversion offered by the controller obeys the same rule and changes nothing.',
 ['histories','inputs'],'all sequences of yaw mode changes, rate and angle references, attitude changes and updates up to the bound, in all control modes and for a lattice of attitudes and gains',
 'The reference must follow the vehicle at every step of every history; tests check a single conversion.',
 [S,C],[('yaw reference',S+': update_yaw_reference_with_yaw_rate'),('conversion',C+': Controller::yaw_rate_to_angle')],observe_at='yaw reference getter')

p('C25','Every query reports the current state, in all forms, without side effects',
 'Whatever the history, all ways of asking for the same quantity (by value, by reference, by output argument, through the component accessors) give the same current value, for the simulator and for every component. Asking never changes any later result, and no query touches memory it should not.',
 ['histories'],'all call sequences up to the bound with all queries made at every point, compared with the same run without queries, under memory and undefined-behaviour checking',
 'There are over a hundred query functions in pairs; a stale or dangling one shows only after particular updates.',
 [S,D,M,I,O,C,P,P1,A,N,PC,VC,TC],[('getters','public getters of all classes')],observe_at='all public getters')

p('C26','Logged state rows carry every quantity in its documented column',
 'The comma separated rows written for vehicle state and odometry contain, for every state and number of rotors, exactly the documented columns in order (position, roll pitch yaw, velocity, body rates, accelerations, force, torque, motor speeds, motor accelerations), each parsing back to the value held. The labelled printouts list every quantity once as "name: value", separated by commas, each name with the value of its own quantity. Writing never alters the state.',
 ['inputs','configurations'],'all states of a lattice with a distinct value in every field, for 4, 6 and 8 rotors and both precisions',
 'Swapped, dropped or repeated columns are only visible when every field has a distinct value; tests only check that printing does not fail.',
 [ST,O],[('row output',ST+': operator<<'),('odometry row',O+': operator<<')],observe_at='text written to the stream')

p('C27','The controller stack reports and chains its intermediate set-points',
 'In every control call each stage consumes exactly the set-point the previous stage produced and the feedback meant for it, and the reported desired position, velocity, acceleration, thrust, body rates and motor speeds are those used in the last call of each stage, for any sequence of calls of different modes. The single conversions yield what their stage yields in a complete call and leave the reported set-points alone. Updating the parameters of one stage changes that stage only.',
 ['histories','inputs'],'all sequences of the five control calls, conversions, parameter updates and resets up to the bound',
 'Stages share set-points across modes; a stale value only shows in specific call sequences.',
 [C,PC,VC,TC,A,N],[('chaining',C+': Controller::compute_*_control'),('set-point getters',C+': Controller::get_desired_*')],observe_at='controller getters after each call')

p('C28','Physics does not depend on where the vehicle is or which way it heads',
 'Shifting the start position, or turning the world about the vertical axis (start state, external force and references) by quarter turns, shifts or turns the whole closed-loop flight and changes nothing else, in every control mode. Height matters only through the floor.',
 ['inputs','histories'],'all bounded flights of the alphabet compared with their shifted and quarter-turned images',
 'A symmetry relates pairs of runs; tests check single runs near the origin with zero heading.',
 [D,S,C,A],[('dynamics',D+': Dynamics::process_euler_explicit'),('control',S+': Simulator::update_controller')],observe_at='whole trajectory of the vehicle')

p('C29','Changing component parameters at run time replaces that component only',
 'Replacing the vehicle, controller, IMU or odometry parameters of a simulator at any moment makes that component behave as newly built from them and leaves the other components, the arming state, modes, references, floor and motor command as they were. Afterwards the simulator behaves like one assembled that way from the start.',
 ['histories','configurations'],'all call sequences with a parameter replacement of every component at every point, up to the bound',
 'Replacement in the middle of a flight leaves traces (memory of the old component) only visible after particular histories.',
 [S,C,D,I,O],[('replacement',S+': Simulator::set_dynamics_params, set_controller_params, set_imu_params, set_inertial_odometry_params')],observe_at='all getters of the simulator after the replacement')

p('C30','In closed loop the vehicle reaches and holds its reference in every mode',
 'With the reference gains and no noise, from every start of a wide region (offsets, velocities, tilt up to 60 degrees, any heading) and for every reference in the region, hover and position mode converge to the position reference, velocity mode to the velocity reference, trajectory mode (which has no limits of its own and is started near its reference) to the trajectory reference and acro mode to the body rates, with the commanded yaw or yaw rate, and stay there; switching between the feedback modes in flight, with short spells of direct motor command between them, never loses the vehicle. All states and commands stay finite throughout.',
 ['inputs','histories'],'all combinations of the start, reference, yaw and mode lattices, and all mode switch sequences up to the bound, each flown to convergence',
 'Convergence is a property of the whole loop over a region; tests fly one or two missions.',
 [S,C,D,M,A,N,P],[('closed loop',S+': Simulator::update_controller, update_dynamics')],observe_at='vehicle state at the end of and during the flight')

p('C31','Elementwise helpers are exact on every value, sign and size',
 'The sign-keeping square and square root are odd, monotonic, inverse to each other and exact at zero; clamping a vector limits every element to the interval and leaves inner values untouched; all work for vectors of any length and both precisions.',
 ['inputs'],'all values of a lattice covering signs, zero, tiny and huge magnitudes, for vector lengths 1 to 8 and both precisions',
 'They are used on motor speeds and velocities of any sign and size; tests use a few small positive vectors.',
 [U,N],[('helpers',U+': squared_keep_sign, sqrt_keep_sign, clamp_vector; '+N+': sqrt_keep_sign')],observe_at='return values')

p('C32','Objects of equal settings and history are equal, however built or copied',
 'Every form of construction that is given the same settings (parameter structs, separate arguments, defaults with later updates) yields objects that behave identically ever after: PIDs, IMU, odometry, vehicle model and dynamics, the five controller stages, the whole controller and the simulator. A copy, made by construction, assignment over a new or a used object, moving or storing in a container, continues exactly as the original would have, including its controller memory and random numbers, outlives the original, and from then on neither affects the other.',
 ['configurations','histories'],'all construction forms, all histories before and after a hand-over up to the bound, on original and copy in any order, for every class',
 'Tests build each object in one way and never copy it; a member forgotten in one constructor, or shared between copies, shows only after particular histories.',
 [S,D,M,I,O,C,A,N,PC,VC,TC,P,P1],[('constructors',S+': Simulator::Simulator; '+D+': Dynamics::Dynamics; '+M+': Model::Model; '+I+': IMU::IMU; '+O+': InertialOdometry::InertialOdometry'),('controller constructors',C+': Controller::Controller and '+CC),('PID constructors',P+': PID::PID; '+P1+': PID::PID')],observe_at='all getters of the objects after every operation')

V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/properties.jsonl','w') as f:
    for q in props: f.write(json.dumps(q)+'\n')
print(len(props))

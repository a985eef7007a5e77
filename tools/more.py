PROPS += [
 p('C14', 'Time is exact and rejected step attempts leave no trace',
   'A step in fixed-length mode advances time by exactly the configured step, and time never runs backwards or by more than the step. An attempt is '
   'rejected only if bodies really overlap by more than the tolerance at its end, and leaves no trace: the state after a step is the one that a world using the '
   'finally accepted step length from the start would have reached. In tolerant mode a step ends after at most four attempts, and only the fourth may end with such an overlap.',
   [INP, HIST, CONF], 'all scenes, step lengths, modes and histories of rejected attempts',
   T0 + 'no test steps a world; rejected attempts need particular collisions.',
   [W, B], [('attempt, rollback, halving', W + ' World.step, step_dt'), ('fixed-length steps', W + ' World.step(fixed_dt=True)')],
   'runtime monitor: penetration of every accepted and rejected end pose against reference geometry; twin runs with the accepted step length',
   'Attempts are seen through the public engine argument.'),
 p('C15', 'Simulation is deterministic, isolated and leaves its inputs alone',
   'Two worlds built from equal descriptions go through the same states bit for bit, also when other worlds are stepped in between, after other worlds have been used, and when '
   'the global random state differs (up to rounding). Tensors, lists and force descriptions given by the user are not modified, sharing them between bodies or worlds does not couple these, and lists and arrays may be used for something else once given.',
   [INP, HIST, 'schedules'], 'all scenes, interleavings of several worlds and random states',
   T0 + 'hidden shared state shows only when worlds are interleaved or repeated.',
   [W, B, E, C], [('state of bodies and world', W + ' World'), ('default arguments and shared tensors', B), ('solver state', E + ' PdipmEngine')],
   'runtime monitor: bitwise comparison of state trajectories of repeated, interleaved and isolated runs; deep comparison of inputs',
   'Random start vertices may change rounding; such runs are compared to 1e-7 for a few steps.'),
 p('C16', 'Motion does not depend on frame, orientation, units or order of bodies',
   'A simulation in which the scene is translated, rotated, reflected, set in uniform motion, described with bodies and joints in another '
   'order, or in other units of mass, length or time (with step, forces, margins and tolerances converted) gives the same motion after transforming back. Where held '
   'coordinates or position corrections are defined with respect to the axes or the step, only the remaining symmetries are meant.',
   [INP, CONF], 'all scenes with unique contact velocities, all transformations of the symmetry group',
   T0 + 'symmetries relate pairs of executions, which unit tests never compare.',
   [W, C, J, B, E], [('contact and friction Jacobians', W + ' World.Jc, Jf'), ('narrow phase', C), ('joint Jacobians', J), ('polygon inertia', B + ' Hull')],
   'runtime monitor: online comparison of twin executions, one transformed (metamorphic relations), step by step',
   'Frictionless scenes and frictional scenes of circles, where the velocity problem has a unique solution.'),
 p('C17', 'Gradients of simulations are their true derivatives',
   'Differentiating a quantity of the final state through a whole simulation with respect to masses, initial positions and velocities, forces, sizes, '
   'restitution or friction gives its true derivative wherever the simulation depends smoothly on that parameter. This holds through collisions, '
   'resting contact, friction and joints, for any number of steps.',
   [INP, HIST], 'all scenes, parameters and outcomes at which the simulated outcome is differentiable',
   T0 + 'no test back-propagates through a simulation; errors appear only for particular combinations of parameter and event.',
   [W, C, J, B, LCP], [('differentiable narrow phase', C + ' DiffContactHandler'), ('LCP gradient', LCP + ' LCPFunction.backward'),
                    ('differentiable body state', B + ' Body.apply_force, move'), ('velocity problem', E + ' PdipmEngine.solve_dynamics')],
   'runtime monitor: gradients from back-propagation against central finite differences of the same simulation, with a smoothness guard',
   'Only pairs whose finite differences at two step widths and from both sides agree, and whose discrete events are the same, are judged.'),
 p('C18', 'Watching or recording does not change a simulation and shows what happened',
   'Running a world with a display, a recorder or both gives the same states, at the same times, as stepping it without. Every body is drawn '
   'where it is, at the requested scale and in its colour, and nothing else is drawn. Recorded frames are numbered without gaps, one per frame interval; a display does not run ahead of real time.',
   [INP, HIST, CONF], 'all scenes, poses, display scales and frame rates',
   T0 + 'no test runs the main loop, draws or records.',
   [W, B, U], [('main loop', W + ' run_world'), ('drawing', B + ' Circle.draw, Hull.draw'), ('recorder', U + ' Recorder')],
   'runtime monitor: recorded frames and surfaces judged against outlines computed from the state; state comparison with an undisplayed run',
   'Headless display (SDL dummy driver), virtual clock; lines are located to 4 pixels.'),
 p('C19', 'Equivalent ways of writing a scene give the same scene',
   'A position or velocity given as list, tuple, array or tensor, with or without orientation, in integers or floats, by position or by name, before or after the '
   'world is built, describes the same scene, and options left out mean their documented defaults. A rectangle behaves as the polygon with the same corners, a '
   'polygon does not depend on its first vertex or reference point, and a state set later acts as one given at the start. A scene given in single precision stays in it.',
   [INP, PROG], 'all bodies, joints and worlds, all equivalent spellings of their arguments',
   T0 + 'the tests use one spelling each.',
   [B, J, W, U], [('constructors', B + ' Circle, Hull, Rect'), ('constructors of joints', J), ('argument conversion', U + ' get_tensor')],
   'runtime monitor: states and motions of equivalent constructions compared online',
   'Compared bit by bit where the same numbers enter, otherwise to rounding; tensors of one floating point type.'),
 p('C20', 'The breakout model reads the game right and plays by its rules',
   'A frame of the game is read back as the paddle, blocks and ball it shows, a state vector converts to the same state and back, and a world built for a state contains exactly '
   'these bodies, in their colours, and the walls. In a game step, which lasts one frame, the paddle moves with the prescribed velocity up to the stoppers, and the ball flies straight and bounces off walls, '
   'blocks and a resting paddle elastically without entering them. The paddle position after steps without contact has the true derivative by the paddle speed.',
   [INP, HIST], 'all game states and action sequences', T0 + 'no test touches the experiments.',
   ['experiments/breakout/encoder.py', 'experiments/breakout/run_breakout.py'],
   [('reading frames', 'experiments/breakout/encoder.py extract_params'), ('world', 'experiments/breakout/encoder.py make_world'),
    ('game step', 'experiments/breakout/encoder.py step_breakout'), ('state vectors', 'experiments/breakout/run_breakout.py to_vector, from_vector')],
   'runtime monitor: rendered frames read back; every game step judged against reference geometry, energy and momentum',
   'The console is replaced by a renderer of its frames; gym and mpc are absent and stubbed.'),
 p('C21', 'Position correction changes positions only and removes constraint error',
   'With position correction on, a step leaves the velocities and the time as without the correction of that step, and moves bodies only by what joints and contacts that are violated can '
   'exert: the correction is the smallest one in kinetic metric, goes towards satisfying the constraints, never overshoots, and leaves bodies without violated constraints in place. '
   'Joint error created by integration is reduced from step to step.',
   [INP, HIST], 'all scenes and histories with position correction', T0 + 'no test uses the option.',
   [W, E], [('correction', E + ' PdipmEngine.post_stabilization'), ('application', W + ' World.step_dt')],
   'runtime monitor: every correction observed through the public engine argument and judged against the projection onto the constraints',
   'The contact part is judged as a cone condition.'),
 p('C22', 'Problems of a batch are solved independently, and solving leaves no trace',
   'The answer and gradients for a problem do not depend on the other problems of its batch, their number or order, nor on problems solved before with the same solver object. '
   'Arguments are not modified.',
   [INP, HIST], 'all batches, orders and call histories', T0 + 'no test calls the solver.',
   [LCP, PD], [('batched iteration', PD + ' forward'), ('context of the backward pass', LCP + ' LCPFunction')],
   'runtime monitor: answers in different batches, orders and histories compared online',
   'Compared where the lone problem is solved to accuracy.'),
 p('C23', 'The breakout agent plans for the ball and learns the speed of the paddle',
   'Given a game state, the solver is asked for bounded controls that bring the paddle under a falling ball until it arrives, with a model that predicts the next state; a rising ball is waited for. '
   'A large enough control becomes the move in its direction, otherwise there is none; the reported score is the mean over the episodes, and a ball is served after one is lost. '
   'Learning from frames follows the true gradient of the difference between predicted and seen paddle, and recovers its velocity.',
   [INP, HIST], 'all game states, episodes and paddle speeds', T0 + 'no test touches the experiments.',
   ['experiments/breakout/run_breakout.py', 'experiments/breakout/learn_params.py'],
   [('planning problem', 'experiments/breakout/run_breakout.py mpc'), ('playing', 'experiments/breakout/run_breakout.py run_breakout, get_action'),
    ('learning', 'experiments/breakout/learn_params.py infer_params')],
   'runtime monitor: posed planning problems, buttons pressed on a drawn console, and gradients at every optimiser step judged against closed forms',
   'gym and mpc are absent: a small console and a recording solver stand in for them.'),
 p('C24', 'The learning experiments follow true gradients and reach their goals',
   'In the mass inference the recorded motion holds every state of the simulation, the loss compares it with the observed one state by state, the mass is shared equally by the links, '
   'and every update uses the true derivative of that loss by the mass, which gets it close to the observed one. '
   'In the pushing demonstration every update of the force follows the true derivative of the final distance from the target, at a decaying rate, and gets the ball closer; what is reported is what was simulated. '
   'The shipped demonstrations run without overlaps or joints coming apart.',
   [INP, HIST], 'all observed masses, chain lengths, durations, starts of the balls, and recorded scenes', T0 + 'no test touches the experiments or runs a demonstration.',
   ['experiments/inference.py', 'demos/grad_demo.py', 'demos/demo.py', 'demos/fixed_joint_demo.py'],
   [('inference loop', 'experiments/inference.py main'), ('recording of states', 'experiments/inference.py positions_run_world'),
    ('learning to push', 'demos/grad_demo.py grad_demo')],
   'runtime monitor: losses, updates and reports of the learning loops judged against an independently written scene and finite differences of it',
   'Durations and masses are varied through module settings; plots are recorded instead of shown.'),
 p('C25', 'The alternative contact handler agrees with the default one on discs',
   'With the alternative contact handler every pair of discs that may collide and comes closer than both margins together is reported once, and no other, '
   'with the true depth, the unit normal from the second to the first and a contact point between the surfaces. '
   'Frictionless scenes of discs move as with the default handler given the same total margin.',
   [INP, HIST, CONF], 'all crowds and scenes of discs, margins, excluded pairs and modes', T0 + 'no test chooses a contact handler.',
   ['lcp_physics/physics/contacts.py', 'lcp_physics/physics/world.py'],
   [('contacts from the collision library', 'lcp_physics/physics/contacts.py OdeContactHandler')],
   'runtime monitor: reported contacts judged in closed form; lockstep comparison of two simulations',
   'Boxes and polygons are not claimed for this handler: its box contacts are three-dimensional and inexact.'),
]

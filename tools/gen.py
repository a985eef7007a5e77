"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'lcp_physics/physics/'
L = 'lcp_physics/lcp/'
W, B, C, J, E, F, U = [P + x + '.py' for x in ('world', 'bodies', 'contacts', 'constraints', 'engines', 'forces', 'utils')]
LCP, PD = L + 'lcp.py', L + 'solvers/pdipm.py'
HIST, INP, CONF, PROG = 'histories', 'inputs', 'configurations', 'programs'
T0 = ('The six tests that pass only construct bodies and compare a few centroids and moments of inertia; ')
NOTE = ('Exploration by monitored execution of the real code: silence means that no violation was observed on the executions '
        'counted in the evidence file, nothing more. ')


def p(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                technique=technique, note=note)


PROPS = [
 p('C01', 'The LCP solver returns a solution of the linear complementarity problem',
   'For every batch of mixed linear complementarity problems with positive definite quadratic term and monotone coupling that has a '
   'solution, the vector returned by the solver satisfies stationarity, the equalities, the inequalities and complementarity, to solver '
   'accuracy. This holds for every combination of sizes, with and without equalities, with and without coupling between the '
   'inequality multipliers, and for every problem of a batch.',
   [INP, CONF], 'all solvable problems (dimension, number of constraints, activity pattern, scaling, batch size) and solver settings',
   T0 + 'none calls the solver, and any finite set of problems misses most activity patterns.',
   [LCP, PD], [('forward solve', LCP + ' LCPFunction.forward'), ('interior point iteration', PD + ' forward'),
               ('block elimination', PD + ' pre_factor_kkt, factor_kkt, solve_kkt')],
   'runtime monitor: returned solutions judged online against an independently certified reference solution',
   'Oracle: Lemke pivoting certified by its residual (frictional family: the complementarity conditions themselves). Isolated '
   'stalls of the interior point iteration are rate-bounded per family.'),
 p('C02', 'Gradients of the LCP solution are its true derivatives',
   'Wherever the solution is differentiable (strict complementarity), the gradient that back-propagation through the LCP solver gives for '
   'each of its inputs equals the derivative of the solution with respect to that input. This holds for the quadratic and linear terms, '
   'both sides of the inequalities and equalities and the multiplier coupling (symmetric or not), for batches and for any downstream loss.',
   [INP, CONF], 'all problems with strictly complementary solutions, all inputs, all directions of the loss',
   T0 + 'no test differentiates anything, and gradients need checking at every input of every kind of problem.',
   [LCP, PD], [('implicit differentiation', LCP + ' LCPFunction.backward')],
   'runtime monitor: back-propagated gradients compared online with the autograd derivative of the active-set KKT system',
   'Judged where complementarity is strict with a margin; the quadratic term is compared up to symmetrisation.'),
 p('C03', 'Contacts obey the restitution law and only push',
   'After every velocity update, the relative normal velocity at each contact present at the start of the step is at least minus the mean '
   'restitution of the two bodies times the approach speed before, and the change of velocities is made of applied forces, joint reactions '
   'and pushing impulses at those contacts that separate exactly at that speed. Contacts that separate faster receive no impulse.',
   [INP, HIST], 'all scenes, all steps of their histories, every restitution, mass, shape and time step',
   T0 + 'no test looks at a velocity after a collision.',
   [W, E], [('normal Jacobian', W + ' World.Jc'), ('restitution mean', W + ' World.restitutions'), ('velocity LCP', E + ' PdipmEngine.solve_dynamics')],
   'runtime monitor on every step: Newton impact law and impulse decomposition (NNLS) with independent contact kinematics',
   'Contact geometry is taken from the world as observed. Single steps judged at 2% of the speed scale, rate of smaller errors bounded.'),
 p('C04', 'Friction obeys the Coulomb law',
   'At every contact the tangential impulse is at most the mean friction coefficient of the two bodies times the normal impulse; where the '
   'surfaces slide after the update it equals that bound and opposes the sliding, and where it is smaller they do not slide. A frictionless contact '
   'transmits no tangential impulse.',
   [INP, HIST], 'all scenes and steps with contacts, every friction coefficient from 0 up, any direction of sliding',
   T0 + 'no test looks at sliding.',
   [W, E], [('friction Jacobian', W + ' World.Jf'), ('coefficients', W + ' World.mu'), ('cone coupling', E + ' PdipmEngine.solve_dynamics')],
   'runtime monitor on every step: distance of the observed impulse from the Coulomb cone law',
   'As C03; friction solutions need not be unique, so the law itself is judged rather than one solution.'),
 p('C05', 'Bodies never overlap at the end of a step',
   'In strict mode without position correction no pair of bodies that may collide overlaps by more than the penetration tolerance at the '
   'end of any step, however fast they move and whatever they collide with. A world whose bodies overlap by more than the tolerance at the start is rejected when it is '
   'created, and one whose bodies do not is accepted.',
   [INP, HIST], 'all scenes and histories, all pairs, all tolerances',
   T0 + 'overlap depends on the whole history of a simulation.',
   [W, C], [('step halving', W + ' World.step_dt'), ('start check', W + ' World.__init__')],
   'runtime monitor: exact shape separation of every pair, with reference geometry, after every step',
   'Measured from poses with shapes rebuilt from the user input, so missed contacts are caught too.'),
 p('C06', 'Contact detection is sound, complete and geometrically exact',
   'Every pair of bodies (circles, rectangles, strictly convex polygons) that may collide and overlaps, or comes closer than the contact margin at a face, is reported, and no pair farther apart than the margin is. '
   'Each report carries a unit normal pointing from the second body to the first along a true separating direction, the true signed depth, and contact '
   'points that are the same world point seen from both bodies and lie on (between) both surfaces. The result does not depend on the random state, on '
   'earlier queries, on the order of the bodies, or on where the pair lies in the plane.',
   [INP, HIST, CONF], 'all pairs of circles, rectangles and strictly convex polygons (no three vertices in line) in all relative poses, all margins, all query histories',
   T0 + 'no test detects a contact; touching, deep, vertex, edge and swapped cases are a continuum.',
   [C, W, B], [('narrow phase', C + ' DiffContactHandler.__call__'), ('circle against hull', C + ' DiffContactHandler.get_closest'),
               ('separating axes', C + ' DiffContactHandler.test_separations'), ('clipping', C + ' DiffContactHandler.clip_segment_to_line'),
               ('broad phase', W + ' World.find_contacts')],
   'runtime monitor: reported contacts compared with brute-force reference geometry, metamorphic re-queries',
   'Vertex-vertex near contacts of separated hulls and concentric circles are outside the claim.'),
 p('C07', 'Bodies stay rigid and their geometry follows their pose',
   'However often a body is moved, rotated, or set back by a rejected step, its shape stays congruent to the one it was created with and sits exactly where its position and '
   'angle say. Contact detection between bodies after any history of motion gives what it gives for bodies freshly created in the same poses.',
   [HIST, INP], 'all histories of moves, pose assignments and simulation steps',
   T0 + 'no test moves a body.',
   [B, W], [('incremental vertex rotation', B + ' Hull.set_p, rotate_verts'), ('broad-phase geometry', B + ' Body.set_p')],
   'runtime monitor: world vertices against reference poses, and contacts against a freshly built twin',
   'Float round-off allowance 1e-9 per unit length.'),
 p('C08', 'Mass properties are those of the described body',
   'For every circle, rectangle and convex polygon the mass matrix holds the given mass and the moment of inertia of a uniform body of that shape about its '
   'centroid, and the body is positioned at its centroid so that its vertices are where the user put them. The result does not depend on the position, the '
   'starting vertex, or on whether a rectangle is described as a polygon, and mass and inertia carry gradients to mass and size. '
   'A polygon described in the wrong sense or by fewer than three vertices is refused.',
   [INP], 'all dimensions, vertex lists, reference points, masses',
   T0 + 'exactly these, for a handful of shapes; every polygon has a different answer.',
   [B], [('centroid', B + ' Hull._get_centroid'), ('inertia', B + ' _get_ang_inertia'), ('mass matrix', B + ' Body.__init__')],
   'runtime monitor: mass matrices and vertices against exact triangle integrals, metamorphic relations',
   'Reference by fan triangulation, to 1e-9 relative.'),
 p('C09', 'Unconstrained bodies follow Newton\'s law',
   'A body with neither joints nor contacts changes its velocity in every step by exactly the applied forces over its mass and inertia times the '
   'elapsed time, and its pose by its new velocity times that time. Forces are the sum of all attached ones, evaluated at the current time, and gravity accelerates all masses equally.',
   [INP, HIST], 'all bodies, forces, times, time steps, whatever the rest of the world does',
   T0 + 'no test applies a force.',
   [E, W, F, B], [('free dynamics', E + ' PdipmEngine.solve_dynamics'), ('force sum', B + ' Body.apply_forces'), ('built-in forces', F)],
   'runtime monitor on every step: momentum balance of every free body',
   'Forces at the start of the step count (explicit integration).'),
 p('C10', 'Joint constraints hold at velocity level',
   'After every step the velocities satisfy every joint: anchor points of a revolute joint have no relative velocity, fixed bodies move as one, held '
   'coordinates do not change, in the geometry at the start of the step. In the absence of contacts the velocities are the constrained ones closest, in kinetic energy norm, '
   'to the unconstrained motion.',
   [INP, HIST], 'all linkages, masses, forces and histories',
   T0 + 'no test has a joint.',
   [E, J, W], [('joint Jacobians', J), ('constraint assembly', W + ' World.Je'), ('KKT solve', E + ' PdipmEngine.solve_dynamics')],
   'runtime monitor on every step: residual of independently derived constraint rows, Gauss principle',
   'Joint geometry is derived from poses and the user input, not from the library.'),
 p('C11', 'Joints do not come apart',
   'Over whole simulations the anchor points of a joint stay together up to the second-order error of the integration of rotations, held coordinates stay where they '
   'were, and bodies fixed together keep their relative angle. This includes shortened (rejected and retried) steps and simulations with position correction.',
   [INP, HIST], 'all linkages and histories, including those with collisions and shortened steps',
   T0 + 'drift is a property of histories.',
   [J, W], [('joint bookkeeping', J + ' Joint.move, update_pos'), ('rollback', W + ' World.step_dt')],
   'runtime monitor: anchor separation after every step against the accumulated integration error bound',
   'The bound is the sum of half squared rotation angles times lever arms.'),
 p('C12', 'Momentum is conserved',
   'In every step the total linear and angular momentum of each group of bodies connected by contacts or joints and not anchored to the world '
   'changes only by the impulse and moment of the applied forces. This holds for any collision, friction and joint reactions.',
   [INP, HIST], 'all scenes and steps', T0 + 'no test simulates a collision.',
   [W, E, J], [('normal and tangential Jacobians', W + ' World.Jc, Jf'), ('joint Jacobians', J)],
   'runtime monitor on every step: momentum ledger of every isolated group',
   'Angular momentum about the start-of-step poses, to 1e-7 relative.'),
 p('C13', 'Contacts and joints create no kinetic energy',
   'When contacts have no restitution, or are frictionless with one common restitution coefficient and no forces act, the kinetic energy after a step never exceeds that '
   'of the unconstrained motion; joints alone never increase it either. Frictionless perfectly elastic collisions conserve it.',
   [INP, HIST], 'all scenes of the dissipative regimes', T0 + 'no test looks at energies.',
   [E, W], [('velocity LCP', E + ' PdipmEngine.solve_dynamics'), ('restitution', W + ' World.restitutions')],
   'runtime monitor on every step: kinetic energy ledger in regimes where the contact law is dissipative',
   'Energy of multi-body linkage impacts judged where velocities satisfy the joints.'),
]
exec(open(os.path.join(V, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more.py')) else None


def main():
    have = [q for q in PROPS if os.path.exists(os.path.join(V, 'checks', q['id'] + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in have:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'],
                                'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                                'anchors': {'files': q['files'],
                                            'mechanism': [{'name': a[0], 'where': a[1] if len(a) > 1 else ''} for a in
                                                          [m if isinstance(m, tuple) else (m,) for m in q['mech']]]}}) + '\n')
    py = '/opt/venv/bin/python'
    m = {'version': 1,
         'setup_cmd': py + ' tools/selfcheck.py',
         'checks': [{'property': q['id'], 'quick_cmd': '%s checks/%s.py --tier quick' % (py, q['id']),
                     'thorough_cmd': '%s checks/%s.py --tier thorough' % (py, q['id']),
                     'technique': q['technique'], 'level': 'exploration', 'level_note': NOTE + q['note']} for q in have],
         'not_applicable': [],
         'notes': 'Pure Python code under test: nothing to build; every check imports /repo\'s working tree. No hooks in /repo: the '
                  'monitors enter through the public engine and contact_callback arguments and public attributes.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()

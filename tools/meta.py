"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing the table)."""
import os
import json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real code over z3 real arithmetic; each assertion an SMT query; counterexamples replayed"
NOTE = "bounded: every value of the symbolic components within the leg counts, expression families and unrollings stated in the evidence file; exact arithmetic (no rounding)"

P = []


def prop(id, title, statement, over, text, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _na=na))


prop('C01', 'Representations of a particle never disagree',
     "Whichever representation of a particle is given at construction or assigned later (spinors with either index position, rank-two spinor with either index position, four-momentum with either index position), all the other representations afterwards describe the same momentum. Index raising and lowering, masslessness (momentum equal to the product of the two spinors) and mass squared equal to the determinant hold after every assignment, in both spinor conventions; a representation that cannot be derived becomes undefined, never stale.",
     ['inputs', 'histories', 'configurations'], "for all component values, all assignment histories, both spinor conventions, massless and massive",
     "tests assign a few representations of random points and compare with round trips; they do not reach all values nor all histories of assignments",
     ['lips/particle.py', 'lips/tools.py'], [('representation setters and converters', 'lips/particle.py'), ('Levi-Civita, Pauli matrices, metric', 'lips/tools.py')])
prop('C02', 'Particle arithmetic is the arithmetic of momenta',
     "Sums, differences, negation and products with scalars of particles have exactly the corresponding combination of momenta, in every representation, for massless and massive operands in either order. The scalar product of two particles is the Minkowski product of their momenta. Operands are left unchanged.",
     ['inputs', 'configurations'], "for all momenta and scalars, all operators and operand orders, both conventions",
     "tests check sums and differences of a handful of random particles", ['lips/particle.py'], [('arithmetic operators', 'lips/particle.py')])
prop('C03', 'Spinor brackets and chains have the value their notation denotes',
     "Evaluating a spinor, a two-particle bracket or a spinor chain, closed or open, with legs or signed sums of legs as entries, in any supported notation, returns the matrix contraction the notation denotes. This holds for massless and massive middle entries and for any leg labels; a chain between plain legs that is not a contraction is refused, never given a value.",
     ['inputs', 'programs'], "for all phase-space points and all chains up to the bound",
     "tests evaluate a few strings at random points and compare them with each other", ['lips/particles_compute.py', 'lips/particles_eval.py', 'lips/tools.py'],
     [('bracket and chain evaluation', 'lips/particles_compute.py'), ('patterns', 'lips/tools.py')])
prop('C04', 'Lorentz invariants equal their definitions',
     "Mandelstam invariants, masses, traces with or without gamma five, Gram determinants and the further named invariants (Omega, Pi, delta-five, differences of chains) equal their defining contraction of the momenta for every choice and ordering of legs. In particular the sign and the antisymmetry of traces with gamma five are respected for every argument order.",
     ['inputs', 'programs'], "for all phase-space points and all index choices up to the bound",
     "tests compute the invariants on few index choices at random points", ['lips/particles_compute.py', 'lips/particles_eval.py'],
     [('invariant evaluation', 'lips/particles_compute.py'), ('traces', 'lips/particles_eval.py')])
prop('C05', 'Expressions evaluate with ordinary arithmetic meaning',
     "Evaluating an expression string built from brackets, chains, invariants, masses and numbers with sums, differences, products (explicit, implicit or spaced), quotients, powers and LaTeX fractions returns the value ordinary arithmetic assigns to it, with the usual precedence and associativity. Integers and rationals of any size are exact elements of the field.",
     ['inputs', 'programs'], "for all phase-space points and all expressions up to the bound", "tests evaluate a handful of expressions",
     ['lips/particles_eval.py', 'lips/particles_compute.py', 'lips/tools.py'], [('expression parsing and evaluation', 'lips/particles_eval.py')])
prop('C06', 'Restoring momentum conservation changes only the chosen legs',
     "After restoring momentum conservation with two chosen legs the total momentum is zero, those two legs are still massless, and every other leg is untouched. With complex momenta only the requested kind of spinor of the two legs changes; with real momenta the result is real for every choice of axis. When no pair is named, every possible random pair gives such a result.",
     ['inputs', 'configurations'], "for all points, all ordered pairs of legs, both chiralities, all axes, all random pairs",
     "tests restore conservation for random points and default legs", ['lips/particles.py'], [('momentum conservation', 'lips/particles.py')])
prop('C07', 'Generated phase-space points are on shell and conserve momentum',
     "A phase-space point generated at random, over any supported field, with complex or real momenta or from twistors, or re-randomised, conserves momentum and has every leg massless, with all representations consistent, whatever the random numbers. Real points have real momenta.",
     ['inputs', 'configurations'], "for all values of the random numbers for which the construction does not divide by zero",
     "tests draw a few random points", ['lips/particle.py', 'lips/particles.py'], [('random generation', 'lips/particle.py'), ('point construction', 'lips/particles.py')])
prop('C08', 'Constructing a singular limit reaches the requested value',
     "Setting one invariant (spinor product, chain, Mandelstam, Gram determinant, trace with gamma five, difference of chains) to a requested value moves the point so that this invariant, computed from its definition, has that value. Momentum is conserved afterwards and every leg is on shell with consistent representations.",
     ['inputs', 'programs'], "for all starting points, all target values, all invariants of the supported families up to the bound",
     "tests set a sample of invariants to one small value at random points, using the library's own evaluation as the judge",
     ['lips/hardcoded_limits/particles_set.py'], [('single-limit constructions', 'lips/hardcoded_limits/particles_set.py')])
prop('C09', 'Constructing a doubly singular limit reaches both requested values',
     "Setting two invariants to two requested values, which may differ, moves the point so that each of them has its own requested value up to sign, when the library accepts the pair. Momentum is conserved afterwards and every leg is on shell with consistent representations.",
     ['inputs', 'programs'], "for all starting points, all pairs of target values, all accepted pairs of invariants up to the bound",
     "tests set both invariants to the same small value at random points", ['lips/hardcoded_limits/particles_set_pair.py'],
     [('pair constructions', 'lips/hardcoded_limits/particles_set_pair.py')])
prop('C10', 'A limit construction that returns has reached the limit, otherwise it raises',
     "When a call that constructs a singular limit (one invariant, a pair, or a general variety) returns, the requested invariants are within tolerance of the requested values and momentum conservation and the on-shell relations hold; when the direct construction did not get there, the fallback is given the original point and the same request, and if that fails too an exception is raised. A point that is fine is not refused.",
     ['inputs', 'fault_sequences'], "for all points the construction may have produced, all values of the invariants, all failure patterns of the construction and of the fallback",
     "tests only see constructions that succeed", ['lips/hardcoded_limits/particles_set.py', 'lips/hardcoded_limits/particles_set_pair.py', 'lips/particles_variety.py'],
     [('acceptance logic', 'lips/hardcoded_limits/particles_set.py'), ('acceptance logic for pairs', 'lips/hardcoded_limits/particles_set_pair.py'), ('variety', 'lips/particles_variety.py')])
prop('C11', 'Consistency checks answer truthfully',
     "The check of momentum conservation, the check of the on-shell relations and the overall consistency check of a phase-space point report a problem exactly when some component of the total momentum, some leg or some invariant is off by more than the tolerance, whichever leg or component it is. They do not modify the point or the lists given to them.",
     ['inputs', 'configurations'], "for all points, tolerances and lists of invariants up to the bound", "tests check that good points pass",
     ['lips/particles.py'], [('consistency checks', 'lips/particles.py')])
prop('C12', 'Relabelling and conjugation act consistently',
     "The image of a point under a permutation of the legs, with or without parity conjugation, is the point whose i-th leg is the permuted leg; invariants of the image equal relabelled (and conjugated) invariants of the point; images compose, inverses undo, and copies have the same legs in the same order, for any number of legs. Images of polynomials in spinor components or in invariants, and of ideals of them, take the same values as the original on the image of the point.",
     ['inputs', 'configurations', 'programs'], "for all points, all permutations up to the bound, with and without conjugation", "tests apply a few symmetries to random points",
     ['lips/particles.py', 'lips/algebraic_geometry/covariant_ideal.py', 'lips/algebraic_geometry/invariant_ideal.py', 'lips/symmetries.py'],
     [('image, copy, angles_for_squares', 'lips/particles.py'), ('images of ideals', 'lips/algebraic_geometry/')])
prop('C13', 'Asking does not change the point, and derived points are independent',
     "Evaluating, comparing, checking, copying or clustering a point, and arithmetic with its particles, leave every representation of every leg unchanged. A copy, an image, a cluster, a sum, a difference or a multiple can be modified without changing what it was made from, and the other way round.",
     ['inputs', 'histories'], "for all points, all queries of the interface and all modifications up to the bound", "tests do not compare points before and after",
     ['lips/particles.py', 'lips/particle.py', 'lips/particles_eval.py', 'lips/particles_compute.py'], [('copy, image, cluster', 'lips/particles.py'), ('particle arithmetic', 'lips/particle.py'), ('evaluation', 'lips/particles_eval.py')])

prop('C14', 'Clustering legs keeps the physics of the corners',
     "Clustering legs into corners gives a point whose legs have exactly the sums of the momenta of the legs of each corner, in every representation; a corner of one leg keeps its spinors, and invariants and chains of the cluster equal those of the sums. Massive fermions made of two legs have spinors whose contraction over the spin index is the momentum, in both index positions, and a single spin component is that component of the complete one. Internal masses keep their value, whether given as numbers or as expressions in Mandelstams of the legs.",
     ['inputs', 'configurations'], "for all points, all groupings of legs up to the bound, all fermion specifications", "tests cluster a few random points",
     ['lips/particles.py', 'lips/particles_compute.py'], [('cluster', 'lips/particles.py')])
prop('C15', 'Equality and hashes follow the kinematics',
     "Two particles are equal exactly when their momenta are, two points exactly when they have the same number of legs and all legs are equal in order; nothing else equals a particle or a point. Equal points have equal hashes, a hash depends on every leg and only on the current kinematics, so that it is usable as a key for results computed at the point.",
     ['inputs', 'histories'], "for all pairs of particles and points up to the bound, before and after assignments", "tests compare a point with its copy",
     ['lips/particle.py', 'lips/particles.py'], [('__eq__ and __hash__', 'lips/particle.py'), ('__eq__ and __hash__ of points', 'lips/particles.py')])
prop('C16', 'Legs are addressed from one, by number or by spinor',
     "Reading, replacing, deleting and inserting a leg by its number acts on exactly that leg, numbered from one, and an index outside the range raises IndexError without changing the point. Reading or assigning a spinor by name (either index position, either chirality, labels of any number of digits) reads or changes exactly that spinor of that leg, the other representations following; all other legs are untouched.",
     ['inputs', 'histories'], "for all points and all sequences of operations and indices up to the bound", "tests index a few legs",
     ['lips/particles.py', 'lips/tools.py'], [('base-one list methods', 'lips/particles.py'), ('indexing_decorator', 'lips/tools.py')])
prop('C17', 'Polarization vectors contract like polarization vectors',
     "The contractions of polarization vectors with momenta and with each other equal the Minkowski products of the explicit polarization vectors for the leg, its helicity and the reference momentum, in every helicity notation and order of arguments. They are transverse, normalised to minus one for opposite helicities and zero for equal ones, and a change of reference momentum only shifts a vector by a multiple of its momentum.",
     ['inputs', 'configurations'], "for all points and reference momenta, all helicity choices", "no test exercises them",
     ['lips/particles_compute.py'], [('ep, pe, ee', 'lips/particles_compute.py')])

prop('C18', 'Internal masses are part of the point',
     "Internal masses given as a dictionary, as a collection of names or assigned later are known to the point by name; reading them, the dictionary of them and evaluating expressions all give their current value. Copies, images and clusters have the same masses and from then on their own; operations on the legs leave them alone. A mass given as an expression has the value of the expression at the point as it is when asked.",
     ['inputs', 'histories'], "for all values of the masses and points, names of every documented form, sequences of operations up to the bound", "tests evaluate two expressions with masses",
     ['lips/particles.py', 'lips/particles_compute.py'], [('internal masses', 'lips/particles.py')])
prop('C19', 'Analytical points, ideals and field changes describe the same kinematics',
     "Making a point analytical replaces exactly the components asked for by their symbols, all representations following, and evaluating an expression analytically and then at the components of a point gives the same as evaluating it at the point; reading components of a point into symbols and updating a point from them are inverse. The generators of an ideal made from covariants are constant multiples of these covariants and of momentum conservation, when included; the relations between components and brackets hold and determine every bracket. Substituting values for parameters, and changing the field of a point, map every representation of every leg (massless, massive or fermion) and the internal masses by the same map.",
     ['inputs', 'configurations'], "for all points and substitutions, any subset of components, all homomorphisms between fields, multiplicities and covariants up to the bound", "tests exercise a few ideals and one change of field of massless legs",
     ['lips/particles.py', 'lips/particle.py', 'lips/algebraic_geometry/'], [('make_analytical_d, analytical_subs_d, subs, to_field', 'lips/particles.py'), ('generators', 'lips/algebraic_geometry/covariant_ideal.py'), ('conversion', 'lips/algebraic_geometry/tools.py'), ('update_particles', 'lips/algebraic_geometry/particles_singular_variety.py')])
prop('C20', 'Compatible symmetries are exactly those that keep or reverse phase weights',
     "For any phase weights, the list of compatible symmetries has every permutation that leaves the weights unchanged, without conjugation, every other permutation that reverses all of them, with conjugation, and nothing else, each once, the identity included. The inverse of a permutation or symmetry undoes it on any point, and all symmetries of a multiplicity are all permutations.",
     ['inputs'], "for all weights (any numbers) and all permutations up to the bound", "tests look at two lists of weights",
     ['lips/symmetries.py'], [('phase_weights_compatible_symmetries, inverse, all_symmetries', 'lips/symmetries.py')])
prop('C21', 'The list of invariants does not depend on the cache and has no duplicates',
     "The list of invariants of a multiplicity depends only on the multiplicity and the options asked for: not on what the cache holds, whether an earlier process was interrupted while writing it, which options were used before, the iteration order of sets, or what a caller did to a list it was given. It has all two-particle brackets, all Mandelstams of three or more legs once up to momentum conservation, no invariant that vanishes on every momentum-conserving point and no two that agree up to sign on all of them; brackets and chains through at most two sums come with their conjugates.",
     ['histories', 'crash_points', 'inputs'], "for all cache contents, interruption points, sequences of options up to the bound; for all momentum-conserving points", "tests compare the length of one list",
     ['lips/invariants.py'], [('Invariants', 'lips/invariants.py'), ('all_strings', 'lips/invariants.py')])

prop('C22', 'Slices and points on varieties satisfy what was asked for',
     "A slice through phase space in one or two parameters conserves momentum and satisfies the constraints it was given for all values of the parameters, with every leg massless, all representations following its spinors, which are linear in the parameters and move independently of each other; brackets along a slice in one parameter of the covariant algorithm are linear. A point requested on (or close to) a variety is the one the polynomial solver returned for exactly that request: it conserves momentum, and each invariant vanishes or has the value asked for it, whichever solution the solver returns. A solution that is discarded is replaced by another, with or without a seed.",
     ['inputs', 'fault_sequences'], "for all starting points, shift spinors and solutions of the polynomial solver", "tests look at the degree of one bracket at one random slice, and the test of the bivariate slice makes a univariate one",
     ['lips/particles_slices.py', 'lips/algebraic_geometry/particles_singular_variety.py'], [('univariate_slice, bivariate_slice', 'lips/particles_slices.py'), ('_singular_variety, from_singular_variety, update_particles', 'lips/algebraic_geometry/particles_singular_variety.py')])
prop('C23', 'A seed determines the point',
     "A phase-space point made with a seed, its reference vector and the internal masses drawn for it are the same whenever it is made again with that seed: they do not depend on the state of the random number generator before, on what was drawn since, or on the iteration order of a set of names, and zero is a seed like any other. Slices made with a seed from the same point are the same too.",
     ['histories', 'inputs'], "for all states of the generator and histories between the two calls", "tests never make a point twice with one seed after other draws",
     ['lips/particles.py', 'lips/particles_slices.py'], [('Particles.__init__', 'lips/particles.py'), ('univariate_slice, bivariate_slice', 'lips/particles_slices.py')])
prop('C24', 'Rounding stays below the tolerance of the field',
     "Over the floating-point field the error accumulated by generating a point, restoring momentum conservation or constructing a limit stays below the tolerance of the field.",
     ['inputs'], "for all points away from degenerate configurations", "tests use random points and repeat on failure",
     ['lips/particles.py'], [('Particles.__init__', 'lips/particles.py')],
     na="rounding of mpmath numbers of 300 digits (arbitrary-precision integers, correctly rounded elementary functions) through hundreds of operations cannot be encoded for a solver; every other property is decided in exact arithmetic")


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if p['_na']:
            na.append(dict(property=p['id'], reason=p['_na']))
        else:
            checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'], thorough_cmd='./run.sh %s thorough' % p['id'], technique=TECH, level='other', level_note=NOTE))
    man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'n/a')


if __name__ == '__main__':
    main()

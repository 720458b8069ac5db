COMMON = ' Trusts TLC, the F_P identity test (probabilistic, several points per identity), mpmath, and that seeded concrete values represent their abstract class.'
NOTE = dict(
 C01=(LAW, 'Every planned (body, placement, region, quantity) class is exercised and compared with the law to 10 digits or what conditioning leaves.' + COMMON),
 C02=(LAW, 'Every planned (source, orientation, placement, region, quantity) class is exercised and compared with the law to 10 digits or what conditioning leaves.' + COMMON),
 C03=(LAW, 'Every planned (electrode array, placement, region, quantity) class is exercised and compared with the law.' + COMMON),
 C04=(LAW, 'Every planned (sphere, contrast, primary, placement, region, quantity) class is exercised and compared with the law.' + COMMON),
 C05=(LAW, 'Every planned (box, magnetisation, region, quantity) class is exercised and compared with the law.' + COMMON),
 C06=(LAW, 'Every planned (source, medium, frequency layout, orientation, region, quantity) class is exercised and compared with the law.' + COMMON),
 C07=(LAW, 'Every planned (medium, times, orientation, region, quantity) class is exercised and compared with the law.' + COMMON),
 C08=(LAW, 'Every planned (wave, polarisation, medium, depth, quantity) class is exercised and compared with the law.' + COMMON),
 C10=(LAW, 'Every planned (implementation, layers, model kind, wavenumbers, frequencies, memory layout, quantity) class is exercised and compared with the law.' + COMMON),
 C11=(LAW, 'Every planned (kernel, implementation, argument class, memory layout) is exercised and compared with the law.' + COMMON),
 C13=(LAW, 'Every planned (conversion, placement, argument form, quantity) class is exercised and compared with the law.' + COMMON),
 C22=(STATE, 'Exhaustive over the bounded shapes and argument forms of the specification.'),
 C17=(STATE, 'Exhaustive over the catalogue of classes, parameters and forms of invalid and valid values (assignment and construction) and invalid observation arguments, plus pseudo-random behaviours of the two-object machine; values are seeded representatives.'),
 C18=(STATE, 'Pseudo-random behaviours of the two-object machine for every class; each answer against a fresh object in a process of its own. Bounded number and length of behaviours; values are seeded representatives.'),
 C19=(STATE, 'Pseudo-random behaviours in which callers overwrite their arrays and results, and every function and query in every memory layout. Bounded number and length of behaviours; values are seeded representatives.'),
 C14=(STATE, 'Every class, query and layout of points and samples of the plan; each block of a batch against the answers for single points and samples.'),
 C15=(STATE, 'Every class, query, motion (translation, rotation, quarter turn, half turn, reflection, tiny rotation), region and form of orientation of the plan; values are seeded representatives.'),
 C16=(STATE, 'Every class, query, strength, scaling and decomposition of the plan; values are seeded representatives.'),
 C20=(LAW, 'Every planned (source, orientation, placement, region, form, quantity) class is exercised: dipole and pole against the law in cylindrical components, the loop against its Cartesian answer.' + COMMON),
 C21=(LAW, 'Every planned (interface, quasistatic choice, form, medium, quantity) class is exercised and compared with the law; every sequence of up to three assignments of resistivity and conductivity. Two recorded findings are pinned by the existing tests.' + COMMON),
 C12=(LAW, 'Every planned (response, part or interface, form of the arguments, induction-number regime, quantity) class is exercised and compared with the law; the harmonic and transient responses are compared as a Fourier pair by numerical integration.' + COMMON),
 C09=(LAW, 'Every planned (earth, number of layers, orientation, heights, offset, field and quasistatic choice) class is exercised; the kernels of the specification are integrated numerically (self-tested on the mirror image), closed forms are compared with law and integral. Tolerance for the layered solution is that of its digital filter (1e-5 of the vector).' + COMMON),
 C23=(LAW, 'The law is derived in the specification from the Boussinesq-Cerruti solutions (Navier, free surface checked) by Betti reciprocity, and its closed form by antiderivatives. Every planned (dip, rake, strike, depth, moduli, place) class is exercised; vertical faults, points on the trace and in line with the ends against the numerical integral. Dips between 89.9 and 90 degrees (exclusive) are not sampled.' + COMMON),
 C24=(LAW, 'Every planned (pair of models, form, quantity, distance from the limit) class is exercised. The order of each limit is computed by TLC from the moments of the source or follows from Taylor coefficients checked as identities in F_P; the constants are bounds with a margin.' + COMMON),
 C25=(LAW, 'Every planned (place, heading, hemisphere, incidence, form of the argument) is exercised and compared with the law to 10 digits.' + COMMON),
 C26=(STATE, 'Every planned picture (shape, pixel, holes, wrapping, line of sight) and a thinned product (all pairs) of contour options; every pixel, and sampled lattice points, of what matplotlib was given to draw.'),
)

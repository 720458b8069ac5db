"""Regenerates properties.jsonl (kept as a script so the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=m,where=w) for m,w in mech])
    if observe: a['observe_at']=observe
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p("C01","Gravity of a point mass, a ball and a prism obeys Newton's law everywhere",
 "For every body (point mass, homogeneous ball, homogeneous prism), density or mass, position and observation point, the gravitational potential is the Newtonian integral G*rho*dV/r of the body, the field is the gradient of that potential and the gradient tensor is the gradient of the field (symmetric; trace 0 outside the mass, -4*pi*G*rho inside). Ball solutions are those of the point mass of the same total mass outside, of the interior solution inside, and continuous at the surface; prism solutions are right inside, outside, above, below, in the planes of the faces and on the lines through the edges. Reported masses are density times volume.",
 ["inputs","configurations"],"all bodies, sizes, positions, densities of either sign, and all observation points off the singular set (inside, outside, on extended faces and edges, near and far)",
 "The tests compare with the same formula re-typed, at one or two bodies on one small grid; the property quantifies over all bodies and all positions, including degenerate alignments with faces and edges.",
 ["geoana/gravity.py","geoana/shapes.py","geoana/kernels/potential_field_prism.py"],
 [("closed forms of U, g, T","geoana/gravity.py"),("8-corner prism kernels","geoana/kernels/potential_field_prism.py")],
 ["PointMass/Sphere/Prism .gravitational_potential/.gravitational_field/.gravitational_gradient/.mass"])

p("C02","Static magnetic sources obey Biot-Savart and Ampere's law everywhere",
 "For every magnetic dipole, magnetic pole, circular current loop and polyline of line currents, the flux density is the Biot-Savart (or Coulomb, for the pole) field of the source, equals the curl of the reported vector potential where one is reported, and equals mu times the reported magnetic field. This holds for every moment or current, radius, position, orientation and permeability, at every observation point off the source: on the axis and arbitrarily near it, in the plane of the loop, on the extension of a segment, near and far.",
 ["inputs","configurations"],"all source parameters and all observation points off the wire or the point source",
 "The tests re-type the formulas at a handful of points and orientations; axis limits, extensions of segments, and the interplay of offset and orientation are reached only by a few points, if at all.",
 ["geoana/em/static/wholespace.py","geoana/em/base.py","geoana/spatial.py"],
 [("closed forms with elliptic integrals, axis expansions","geoana/em/static/wholespace.py CircularLoopWholeSpace"),("sum over segments","geoana/em/static/wholespace.py LineCurrentWholeSpace")],
 ["vector_potential, magnetic_flux_density, magnetic_field of the static whole-space sources"])

p("C03","Direct-current sources obey Coulomb's law and the insulating surface",
 "A point current electrode in a whole space produces V = rho*I/(4*pi*r), and a grounded wire the potential of its two end electrodes; in a half-space the potential is the one of the electrode and its image, so that no current crosses the surface, and a dipole is the difference of its two electrodes (and, with two receivers, of the two receiver values). In all of them E = -grad V and J = E/rho, and exchanging source and receiver electrodes leaves the potential difference unchanged. The half-space solutions refuse observation points above the surface.",
 ["inputs","configurations"],"all resistivities, currents, electrode positions at or below the surface, and observation points at or below the surface",
 "The tests re-type the formulas for one electrode position and one grid; reciprocity, the boundary condition and E = -grad V over buried electrodes are not tested.",
 ["geoana/em/static/wholespace.py","geoana/em/static/halfspace.py"],
 [("image term","geoana/em/static/halfspace.py"),("sum over the end points of the wire","geoana/em/static/wholespace.py LineCurrentWholeSpace")],
 ["potential, scalar_potential, electric_field, current_density"])

p("C04","A conducting or permeable sphere in a uniform field is solved exactly",
 "For every radius, pair of conductivities (or permeabilities), primary field vector and position of the sphere, the total potential and fields are the solution of Laplace's equation with a uniform field at infinity: the potential is continuous, the normal current density (flux density) is continuous across the surface, and the field is minus the gradient of the potential. The total equals primary plus secondary for every reported quantity, the flux or current uses the material on its own side of the surface, and the surface charge is the jump of the normal electric field times the free-space permittivity.",
 ["inputs","configurations"],"all radii, contrasts (larger, smaller, equal), primary fields in any direction, positions, and observation points inside and outside; all three choices of field",
 "The tests evaluate re-typed formulas for one contrast and axis-aligned primary fields on one small grid.",
 ["geoana/em/static/sphere.py"],[("closed form inside and outside","geoana/em/static/sphere.py")],
 ["potential, electric_field, current_density, charge_density, magnetic_field, magnetic_flux_density with field=all/primary/secondary"])

p("C05","A uniformly magnetised prism produces its exact magnetic field everywhere",
 "For every prism, magnetisation vector and observation point, H is the field of the magnetic surface charge of the prism (the gradient of the reported scalar potential, with the sign the documentation gives), the reported gradient is the tensor of spatial derivatives of H (symmetric, trace-free), and B = mu_0*H outside the prism and mu_0*(H+M) inside it. The reported moment is magnetisation times volume.",
 ["inputs","configurations"],"all prisms, magnetisations (including components of either sign and zero), observation points inside, outside and aligned with faces or edges",
 "Tests cover one prism and a few magnetisations at generic points.",
 ["geoana/em/static/freespace.py","geoana/shapes.py","geoana/kernels/potential_field_prism.py"],
 [("corner sums of prism kernels","geoana/em/static/freespace.py")],["scalar_potential, magnetic_field, magnetic_flux_density, magnetic_field_gradient, moment"])

p("C06","Harmonic electric and magnetic dipoles satisfy Maxwell's equations",
 "For every frequency, medium (conductivity, permeability, permittivity), quasistatic choice, position, orientation, strength and observation point, the fields of a harmonic electric or magnetic dipole in a whole space satisfy the frequency-domain Maxwell equations under the time convention exp(+i*omega*t) and the source's near-field singularity: H is the curl of the reported vector potential for the electric dipole, E is minus its curl for the magnetic dipole, the fields decay away from the source, and J = sigma*E, B = mu*H. Off the source, curl E = -i*omega*mu*H and curl H = (sigma + i*omega*epsilon)*E, with epsilon = 0 when quasistatic; the code's electric dipole uses sigma instead of sigma + i*omega*epsilon in the prefactor of E when not quasistatic, which is recorded as a known finding.",
 ["inputs","configurations"],"all frequencies from far below to far above the transition sigma = omega*epsilon, all media, both quasistatic settings, all geometries",
 "Tests re-type the same expressions at one or two media and frequencies; curl relations, decay and regimes of large and small wavenumber-distance are not covered.",
 ["geoana/em/fdem/wholespace.py","geoana/em/fdem/base.py","geoana/em/base.py"],[("closed forms in kr","geoana/em/fdem/wholespace.py"),("wavenumber","geoana/em/fdem/base.py")],
 ["vector_potential, electric_field, current_density, magnetic_field, magnetic_flux_density"])

p("C07","The transient electric dipole satisfies the diffusive Maxwell equations",
 "For every time after switch-off, conductivity, permeability, position, orientation, strength and observation point, the transient fields of an electric dipole in a whole space satisfy the quasi-static time-domain Maxwell equations: H is the curl of the reported vector potential, curl H equals sigma*E, and the reported time derivatives are the derivatives in time of the reported H and B. J = sigma*E and B = mu*H.",
 ["inputs","configurations"],"all times from early to late, all media and geometries",
 "Tests re-type expressions at one medium and few times; the mutual relations are not tested.",
 ["geoana/em/tdem/wholespace.py","geoana/em/tdem/base.py"],[("closed forms in theta*r","geoana/em/tdem/wholespace.py ElectricDipoleWholeSpace")],
 ["vector_potential, electric_field, current_density, magnetic_field, magnetic_field_time_deriv, magnetic_flux_density, magnetic_flux_density_time_deriv"])

p("C08","Harmonic and transient plane waves satisfy Maxwell's equations",
 "For every amplitude, polarisation (a name or any horizontal unit vector), medium, frequency or time, and depth, the electric field of a downgoing plane wave points along the polarisation and depends on depth only, the magnetic field is horizontal and perpendicular to it, and together they satisfy Faraday's and Ampere's laws with the stated amplitude at the datum plane. J = sigma*E and B = mu*H; the transient solution is the diffusive response to an impulse of E at the datum at time zero.",
 ["inputs","configurations"],"all amplitudes, polarisations, media, frequencies and times (scalars and arrays), all observation points",
 "Tests fix polarisation to X or Y and few media; sign and phase relations are compared with re-typed formulas.",
 ["geoana/em/fdem/wholespace.py","geoana/em/tdem/wholespace.py"],[("closed forms","HarmonicPlaneWave, TransientPlaneWave")],
 ["electric_field, current_density, magnetic_field, magnetic_flux_density"])

p("C09","A harmonic magnetic dipole above a half-space or layered earth",
 "For every layered earth (number of layers, thicknesses, conductivities, permeabilities), frequency, dipole height, orientation and moment, the secondary magnetic field above the earth is the Hankel-transform solution with the layered transverse-electric reflection coefficient, the total is the free-space dipole field plus the secondary, and the surface half-space solution agrees with it. Splitting a layer into pieces of the same material changes nothing, and the field is the sum of those of its components along the axes.",
 ["inputs","configurations"],"all layer models, frequencies (scalar or array), heights, orientations, offsets in all quadrants, and fields secondary/total",
 "Tests compare with a few stored models at a few points; invariance under layer splitting, arbitrary orientation and offset quadrants, and agreement of the two solutions are not tested in general.",
 ["geoana/em/fdem/layered.py","geoana/em/fdem/halfspace.py","geoana/kernels/tranverse_electric_reflections.py"],
 [("digital-filter Hankel transform","geoana/em/fdem/layered.py"),("closed form on the surface","geoana/em/fdem/halfspace.py")],["magnetic_field(field=secondary/total)"])

p("C10","TE reflection coefficients and their sensitivities are exact",
 "For every list of frequencies, wavenumbers, and layered model, the transverse-electric reflection coefficient is that of the layered medium (bounded, tending to 0 for a vacuum, independent of splitting a uniform layer), and the reported sensitivities to conductivity, permeability and thickness are its partial derivatives, entry by entry. The accelerated implementation and the reference implementation agree.",
 ["inputs","configurations"],"all shapes and layouts of the inputs, numbers of layers from zero interfaces up, and material contrasts",
 "Tests check the gradient by random directional expansions of one model shape.",
 ["geoana/kernels/tranverse_electric_reflections.py","geoana/kernels/_extensions/rTE.pyx","geoana/kernels/_extensions/_rTE.cpp"],
 [("recursion over layers","_rTE.cpp funcs::rTE, rTEgrad"),("numpy reference","tranverse_electric_reflections.py")],["rTE_forward, rTE_gradient (compiled and reference)"])

p("C11","Prism kernels: accelerated equals reference equals analytic, everywhere",
 "Each prism kernel function returns, for every finite argument, the analytic kernel (an antiderivative of 1/r or one of its derivatives) with its finite limit where the expression degenerates (an argument zero, a point on an axis or at the origin), identically for the accelerated and the reference implementation, for numpy arrays of any shape and memory layout (the accelerated one also for scalars, lists, broadcasting and single precision).",
 ["inputs","configurations"],"all argument triples (all sign patterns, zeros, widely different magnitudes) and input layouts",
 "Tests use one random array of generic points.",
 ["geoana/kernels/potential_field_prism.py","geoana/kernels/_extensions/potential_field_prism.pyx"],[("degenerate branches","both implementations")],
 ["prism_f, prism_fz, prism_fzz, prism_fzx, prism_fzy, prism_fzzz, prism_fxxy, prism_fxxz, prism_fxyz"])

p("C12","Closed-form loop and dipole responses of a half-space are mutually consistent",
 "For every frequency or time, conductivity, permeability, radius, current and number of turns, the response at the centre of a horizontal loop and on the surface from a vertical magnetic dipole on a conductive half-space are the analytic ones; the reported time derivatives are the derivatives of the reported fields, flux is mu times field, and total minus secondary is the free-space field. Class and function interfaces to the same response agree, and the functions of the reference module are the published equations with their published signs.",
 ["inputs","configurations"],"all parameters, frequencies and times (scalars and arrays), and horizontal offsets in all directions",
 "Tests re-type formulas at one configuration.",
 ["geoana/em/fdem/simple_functions.py","geoana/em/tdem/simple_functions.py","geoana/em/tdem/halfspace.py","geoana/em/tdem/reference.py"],[("closed forms","simple_functions")],
 ["vertical_magnetic_* functions, magnetic_*_vertical_magnetic_dipole functions, VerticalMagneticDipoleHalfSpace"])

p("C13","Coordinate conversions and rotations are exact and mutually inverse",
 "Converting points and vector fields between Cartesian, cylindrical and spherical coordinates and back is the identity, converted vectors have the same length and represent the same physical vector, and conversions follow the documented conventions in every octant, on the axes and at the origin. The rotation between two normals is a proper rotation taking the first to the second for all directions, including (nearly) parallel and opposite ones, and rotating points preserves distances about the given centre.",
 ["inputs"],"all points and vectors in all octants and degenerate positions, single points and arrays of any shape; all pairs of directions",
 "Tests use a few random points and directions.",
 ["geoana/spatial.py"],[("conversion formulas","geoana/spatial.py"),("Rodrigues rotation","rotation_matrix_from_normals")],
 ["cylindrical/spherical/cartesian conversions, rotation_matrix_from_normals, rotate_points_from_normals, distance helpers"])

p("C14","Each output value depends only on its own point and sample, in its own slot",
 "For every object, quantity and layout of observation points (one point, a list, a grid of any dimension, a tuple of coordinate arrays, empty, non-contiguous, integer or single precision) the result has one entry per sample (frequency or time, when given as an array) and observation point, in that order, followed by the vector or tensor components. Each entry equals what is returned for that point and that sample alone, whatever the other points are and however many there are.",
 ["inputs","configurations"],"all objects and quantities, all layouts and sizes of observation points and of sample arrays, including batches that contain singular points",
 "Tests use a few fixed shapes and never compare batches against single points.",
 ["geoana/utils.py","geoana/spatial.py","geoana/em","geoana/gravity.py"],[("check_xyz_dim, append_ndim","geoana/utils.py"),("masks and broadcasting","all field methods")],["every field method"])

p("C15","Moving or rotating the whole experiment moves and rotates the fields",
 "For every whole-space source, translating source and observation points together leaves every result unchanged, and rotating source, its orientation and the observation points together rotates vector results (and leaves scalar potentials unchanged), for all orientations given by name or vector. Bodies with axis symmetry (prisms) obey it for reflections and axis permutations, and half-space solutions for horizontal translations and rotations about the vertical.",
 ["inputs","configurations"],"all rigid motions, all sources, all observation points",
 "Tests sample a few orientations and mostly sources at the origin.",
 ["geoana/em/base.py","geoana/em","geoana/gravity.py","geoana/spatial.py"],[("orientation and location handling","geoana/em/base.py BaseDipole")],["every field method"])

p("C16","Fields are linear in source strength and superpose",
 "Every field is proportional to its source strength (moment, current, mass, density, amplitude, magnetisation, primary field, slip), including zero and negative strengths, and a source composed of parts (segments of a wire, sub-prisms of a prism, components of an orientation or magnetisation, electrodes of a dipole) has the sum of the fields of the parts. Reversing the orientation, or the direction of travel of the wire, changes the sign.",
 ["inputs","configurations"],"all strengths, decompositions and observation points",
 "Tests use unit or default strengths in few combinations.",
 ["geoana/em","geoana/gravity.py","geoana/earthquake/oksar.py"],[("strength factors","every field method")],["every field method"])

p("C17","Invalid parameters are refused and leave the object as it was",
 "Assigning or constructing with an invalid parameter (wrong sign, wrong type, wrong shape or length, unknown name, reversed prism corners at construction, source or points on the wrong side of a surface where that is checked) raises an error, and the object keeps its previous value and gives the same results as before. Every valid value is accepted and read back as given (orientations normalised).",
 ["inputs","histories"],"all classes, settable attributes and classes of valid and invalid values, at construction and at any later moment",
 "Tests check selected attributes once, and never check the object after a refused assignment.",
 ["geoana/em/base.py","geoana/em","geoana/gravity.py","geoana/shapes.py","geoana/earthquake/oksar.py"],[("property setters","all classes")],["attribute assignment, constructors"])

p("C18","Results depend on current parameters only, never on an object's history",
 "After any sequence of attribute assignments and queries on any number of objects, each query returns exactly what a freshly constructed object with the same current parameters returns. Queries never change an object's parameters, objects never influence each other, and repeating a query gives the same result.",
 ["histories"],"all interleaved sequences of assignments (accepted or refused) and queries on several objects, including repeated queries with the same or modified arrays",
 "Tests construct, query once and drop; histories are not explored.",
 ["geoana/em/base.py","geoana/em","geoana/gravity.py","geoana/earthquake/oksar.py"],[("no cached state; derived quantities computed on demand","all classes")],["every attribute and field method"],
 [("parameters","the current attribute values of each object","instances of all model classes")])

p("C19","Callers' arrays and the library's state are isolated from each other",
 "No call modifies an array, list or dictionary passed to it, whether in a constructor, an assignment, a query or a plotting or conversion helper. Changing an array after passing it in, or changing a returned field or potential, has no effect on the object or on later results.",
 ["histories","inputs"],"all arguments and results of all public calls, and all later modifications of them",
 "Tests never mutate arguments or results.",
 ["geoana/em/base.py","geoana/spatial.py","geoana/utils.py","geoana/em","geoana/gravity.py"],[("setters copy, functions build new arrays","all classes")],["every public call"])

p("C20","Cylindrical input and output is the same field in other coordinates",
 "For the static whole-space magnetic sources, asking for cylindrical coordinates interprets the observation points as (radius, angle, height) and returns the same physical vectors as the Cartesian call, expressed in the cylindrical basis at each point, for every source position and orientation. Exactly on the z axis, where the basis is not defined, the angle of the input point (or the convention of the conversion functions) fixes the basis. Any other coordinate name is refused.",
 ["inputs","configurations"],"all sources, orientations, positions and observation points including the axis",
 "Tests compare one or two orientations for one source at the origin.",
 ["geoana/em/static/wholespace.py","geoana/spatial.py"],[("conversion before and after","coordinates= option")],["vector_potential, magnetic_flux_density, magnetic_field with coordinates="])

p("C21","Derived medium quantities follow from the medium parameters",
 "Angular frequency, complex conductivity, wavenumber (decaying branch), skin depth, diffusion distance, peak time and the inverse diffusion length are the documented functions of frequency or time, conductivity, permeability, permittivity and the quasistatic choice, identically through functions and objects and for scalars and arrays. Resistivity and conductivity are always reciprocal, whichever was set last.",
 ["inputs","histories"],"all media, frequencies, times, quasistatic settings, and orders of assignment",
 "Tests sample single values.",
 ["geoana/em/base.py","geoana/em/fdem/base.py","geoana/em/tdem/base.py"],[("closed forms","module functions and properties")],["omega, sigma_hat, wavenumber, skin_depth, peak_time, diffusion_distance, theta, rho, sigma"])

p("C22","Grid and array helpers enumerate exactly the grid points, in order",
 "Building a grid from one to three axis vectors yields every combination exactly once with the first axis varying fastest (in both output layouts), flattening an array is column-major and keeps every element, and point checks accept exactly the arrays (or tuples of equally shaped arrays) whose last dimension is the number of coordinates. Distances, dot products and magnitudes are taken point by point.",
 ["inputs"],"all axis lengths, array shapes, memory orders and dtypes",
 "Tests check one shape per function.",
 ["geoana/utils.py","geoana/spatial.py"],[("column-major conventions","geoana/utils.py")],["ndgrid, mkvc, check_xyz_dim, append_ndim, distance, vector_dot, vector_magnitude, repeat_scalar"])

p("C23","Fault displacement is the elastic half-space dislocation solution",
 "For every fault (centre, top and bottom depth, strike, dip, rake, slip, length, elastic moduli) and simulation grid, the displacement at each grid point is the surface displacement of that rectangular dislocation in an elastic half-space, and the grid is the one spanned by its origin and two side vectors. Attributes of faults and interferograms read back what was assigned.",
 ["inputs","configurations"],"all fault geometries, slips, moduli and grids",
 "There is only an example-level test of this module.",
 ["geoana/earthquake/oksar.py"],[("closed-form rectangular dislocation","Oksar.displacement_vector"),("grid construction","Oksar.simulation_grid")],["displacement_vector, simulation_grid, attributes"])

p("C24","Models agree with each other in their common limits",
 "In the limit of low frequency the harmonic dipoles give the static ones, at late or early time the transient response reaches its static limit, a small or distant loop, wire square or magnetised prism acts as the dipole of the same moment, a distant ball or prism as a point mass, a short grounded wire as a current dipole, equal layers as a half-space, and vanishing contrasts produce no secondary field. The agreement improves at the rate the theory gives.",
 ["inputs","configurations"],"all pairs of models with a common limit, and all parameters approaching it",
 "Tests look at each model alone.",
 ["geoana/em","geoana/gravity.py"],[("independent implementations of the related models","geoana/em, geoana/gravity.py")],["field methods of the related models"])
p("C25","The line of sight of an interferogram points from the ground to the satellite",
 "For every interferogram (reference point and incidence there, satellite azimuth and altitude, Earth radius, UTM zone in either hemisphere) and every list of locations, the line-of-sight vector of a location is the unit vector (east, north, up) from the ground towards a right-looking satellite on that track: its incidence is the reference incidence at the reference point and changes across the track with the angle at the centre of the Earth, and its horizontal part is perpendicular to the azimuth. A single location gives one vector, a list of n locations a (3, n) array in the order given.",
 ["inputs","configurations"],"all satellite geometries, zones, locations and ways of passing them",
 "The only test of it needs the network and looks at one location of one satellite.",
 ["geoana/earthquake/oksar.py"],[("spherical geometry","EarthquakeInterferogram.get_LOS_vector, _ang_to_gc")],["EarthquakeInterferogram.get_LOS_vector"])

p("C26","Pictures show every value at its own place",
 "A picture of an interferogram shows each data entry, scaled (and modulo the fringe interval when wrapped), in its own pixel: entries run from the north-west corner eastwards and then southwards, pixels have the given size, entries equal to zero are left blank and are exactly those the mask covers. A picture of a fault's displacement shows at each grid point's pixel the vertical component, or the component along that point's line of sight. plot2Ddata fills, at every lattice point, the band that contains the interpolated value (magnitude for vectors), leaves masked places blank, divides the range of colours evenly (or evenly in the logarithm) with ends from clim, the options or the data, and refuses contradicting limits. Drawing does not change the data.",
 ["inputs","configurations"],"all image shapes, pixel sizes, patterns of missing data, scalings, grids, scattered points, masks and combinations of options",
 "Tests only call the plotting functions and look at nothing that is drawn.",
 ["geoana/earthquake/oksar.py","geoana/plotting_utils.py"],[("order of the entries and orientation of the image","EarthquakeInterferogram._get_plot_data, Oksar.plot_displacement"),("interpolation, masking and levels","plot2Ddata")],["plot_interferogram, plot_mask, plot_displacement, plot2Ddata"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

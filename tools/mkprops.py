#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single place where the property texts live).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,symbols):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=files[0]) for x in symbols])))
S="src/_booz_xform/"
p("C01","The transform computes the Boozer spectra of |B|, R, Z, nu and the Jacobian",
 "For every equilibrium the Fourier amplitudes returned by a run are the ones obtained by integrating |B|, R, Z, nu and the Jacobian (G + iota I)/|B|^2 over the full original-angle grid against cos/sin(m theta_B - n zeta_B) with the change-of-variables weight, where nu = (w - I lambda)/(G + iota I), theta_B = theta + lambda + iota nu, zeta_B = zeta + nu, and w is the potential whose theta and zeta derivatives are the non-constant parts of the covariant field components. "
 "This holds for stellarator-symmetric and asymmetric input, any mode ordering, negative toroidal mode numbers, any number of field periods and any requested resolution.",
 ["inputs","configurations"],"all real values of every input Fourier amplitude and profile, symmetric and asymmetric, all mode tables, nfp and mboz/nboz",
 "The regression test compares four stored equilibria at one resolution each; a wrong sign, weight or index that is zero or absent in those files passes.",
 [S+"surface_solve.cpp",S+"init.cpp",S+"init_trig.cpp"],["Booz_xform::surface_solve","Booz_xform::init","init_trig"])
p("C02","Input that is already in Boozer coordinates is reproduced exactly",
 "If the straight-field-line displacement vanishes and the covariant field components are constant on a surface, the Boozer angles equal the original angles, so after a run the spectra of |B|, R and Z equal the input spectra at every resolution that contains the input modes, and every other amplitude of them is zero and nu is zero. "
 "This includes the purely axisymmetric resolution (no toroidal modes) and modes of negative toroidal mode number.",
 ["inputs","configurations"],"all real amplitudes, every resolution that contains the input mode table, all nfp",
 "No test has an input in Boozer coordinates; the quadrature's orthogonality has to hold for every pair of modes at every resolution.",
 [S+"surface_solve.cpp",S+"init.cpp"],["Booz_xform::surface_solve","Booz_xform::init"])
p("C03","The output mode table and array sizes follow the requested resolution",
 "After a run with resolution (mboz, nboz), the output modes are exactly m = 0..mboz-1 with n = -nboz..nboz (n = 0..nboz for m = 0), in that order, without repetition, with toroidal mode numbers multiplied by the number of field periods, and mnboz is their number. "
 "Every output spectrum has one row per mode and one column per requested surface, and the spectra that vanish by stellarator symmetry have size 0 x 0 when the input is symmetric.",
 ["inputs","configurations"],"all mboz >= 1, nboz >= 0, nfp >= 1, both symmetries",
 "Tests only use the resolutions stored in a handful of reference files, all with several toroidal modes.",
 [S+"init.cpp"],["Booz_xform::init"])
p("C04","Each output surface belongs to the requested input surface and only to it",
 "Column j of every output spectrum, and the j-th output flux label, G and I, are computed from the j-th requested input surface alone: they do not depend on which other surfaces are requested, on their order or repetition, or on the data of any other surface. "
 "The all-surface profiles of G and I hold the (0,0) covariant components of every input surface in input order.",
 ["inputs","configurations"],"all lists of requested surfaces (any order, repetitions, subsets), all data on the other surfaces",
 "Tests request all surfaces or one fixed list and compare with files produced the same way.",
 [S+"init.cpp",S+"surface_solve.cpp",S+"run.cpp"],["Booz_xform::run","Booz_xform::init","Booz_xform::surface_solve"])
p("C05","The parallel run is free of races and independent of the thread schedule",
 "While a run processes several surfaces in parallel, no two threads access the same memory without synchronisation when at least one of them writes it. "
 "The outputs are the same for every number of threads and every assignment of surfaces to threads.",
 ["schedules","inputs"],"all thread counts, all assignments of surfaces to threads and interleavings, all inputs",
 "A test executes one schedule, and the benign outcome of a race is by far the most likely one.",
 [S+"run.cpp",S+"surface_solve.cpp",S+"check_accuracy.cpp"],["Booz_xform::run","Booz_xform::surface_solve","Booz_xform::check_accuracy"])
p("C06","An object can be reused: results depend only on the current inputs",
 "The results of loading data, running or reading a file depend only on the data and settings in force at that call, never on what the object was used for before: reusing an object for another equilibrium (of another size, symmetry or number of field periods), another resolution or another surface list gives exactly what a fresh object gives, and running twice gives the same result. "
 "A run does not modify its inputs.",
 ["histories","inputs"],"all sequences of loads, setting changes, runs and reads on one object, compared with a fresh object",
 "Every test uses a fresh object once; leftovers of a previous use can only show in a second use.",
 [S+"init.cpp",S+"surface_solve.cpp",S+"init_from_vmec.cpp",S+"read_boozmn.cpp",S+"booz_xform.cpp"],["Booz_xform::init","Booz_xform::run","Booz_xform::init_from_vmec","Booz_xform::read_boozmn"])
p("C07","Verbosity never changes results and the accuracy table is truthful",
 "The numerical results of loading, running, writing and reading are identical for every verbosity level. "
 "With output enabled, each surface's accuracy report shows, at the points (theta, zeta) = (0,0), (pi,0), (0,pi/nfp), (pi,pi/nfp), the input |B|, the |B| reconstructed from the computed Boozer spectrum at the image of that point, and |difference| / max of the two, labelled with the surface's index in the request and in the input.",
 ["inputs","configurations"],"all inputs, both symmetries, all verbosity levels",
 "No test looks at the printed table; the regression tests run at one verbosity.",
 [S+"check_accuracy.cpp",S+"surface_solve.cpp",S+"init.cpp",S+"init_from_vmec.cpp"],["Booz_xform::check_accuracy","Booz_xform::surface_solve"])
p("C08","VMEC import puts every quantity on the half grid with the documented rules",
 "Importing equilibrium data on ns radial points yields ns-1 surfaces with flux label (j+1/2)/(ns-1): half-grid quantities lose their first radial entry, even-m R and Z amplitudes become the mean of the two adjacent full-grid values, odd-m ones the mean after division by sqrt(s) multiplied by sqrt(s) of the half-grid point, and for m = 1 the innermost value uses linear extrapolation of amplitude/sqrt(s) from the two full-grid points next to the axis. "
 "When flux profiles are given, the stored toroidal-flux derivative is the given one divided by -2 pi and the others are stored unchanged, the boundary toroidal flux is the last entry, otherwise all are empty; all surfaces are selected, and the default resolution is mboz = 6 mpol and nboz = max(2 ntor - 1, 0).",
 ["inputs","configurations"],"all amplitudes, ns >= 2, mode tables in any order, both symmetries, with and without flux profiles",
 "The tests see only equilibria written by VMEC and compare final spectra, so compensating or small radial errors and the flux-profile path are never isolated.",
 [S+"init_from_vmec.cpp"],["Booz_xform::init_from_vmec"])
p("C09","Inconsistent data and impossible run requests are rejected, others accepted",
 "Importing equilibrium data raises an error whenever the number of radial points is below 2, the number of field periods is below 1, any array required by the symmetry (or any flux profile given) has a size that disagrees with the number of radial points and modes, or the mode tables do not start with (0,0) and end at n = nfp times the declared maximum; otherwise it succeeds. "
 "A run raises an error when required input data are missing or disagree in size with the declared numbers, a mode number exceeds the declared maximum, a requested surface does not exist or the resolution is not positive (mboz < 1 or nboz < 0).",
 ["inputs"],"all sizes of every array, all values of the scalar descriptors, all requested surfaces and resolutions",
 "No test passes inconsistent data; each single check guards a memory error that only shows for that inconsistency.",
 [S+"init_from_vmec.cpp",S+"run.cpp"],["Booz_xform::init_from_vmec","Booz_xform::run"])
p("C10","Reading a VMEC file loads every variable into its own quantity",
 "Reading a VMEC output file is equivalent to importing exactly the variables of that file: each input quantity comes from the file variable of the same meaning, including the asymmetric ones if and only if the file is marked asymmetric and the flux profiles if and only if they are requested, and the maximum Nyquist mode numbers are those of the last Nyquist mode.",
 ["inputs","configurations"],"all file contents, both symmetries, with and without flux profiles",
 "Swapping two variables that are small or equal in the sample files, or dropping one, does not move a regression result by more than its tolerance or is not looked at.",
 [S+"read_wout.cpp",S+"netcdf_reader.cpp"],["Booz_xform::read_wout","NetCDFReader::get"])
p("C11","The written file contains the results in the established boozmn layout",
 "A written result file contains, with the established names, dimensions and ordering, the symmetry flag, number of field periods, resolution, aspect ratio, mode tables, 1-based surface list (index + 2), the rotational transform and G and I profiles of all input surfaces with a leading zero, the flux profiles if present (with the first toroidal-flux derivative entry zero) and every Boozer spectrum of each surface, the angle difference with its sign reversed. "
 "Quantities that are not computed (beta, extremal R, axis beta, and absent flux profiles) are written as zeros, and the asymmetric spectra are present exactly for asymmetric results.",
 ["inputs","configurations"],"all result values, sizes, both symmetries, with and without flux profiles",
 "Tests compare a subset of variables of three files, and only numerically after reading back with the same code.",
 [S+"write_boozmn.cpp",S+"netcdf_writer.cpp"],["Booz_xform::write_boozmn","NetCDFWriter::put","NetCDFWriter::write_and_close"])
p("C12","Writing a result file and reading it back restores the results",
 "Writing the results of a run to a file and reading the file into any object restores the symmetry flag, number of field periods, resolution, mode tables, surface list, flux labels, rotational transform, the G and I profiles, the flux profiles (zeros if there were none) and all Boozer spectra. "
 "Reading a result file of another program in the same layout takes every quantity from the variable of its name, whatever its mode table and order of variables; if a file lacks the optional poloidal flux the profile reads as zeros.",
 ["inputs","histories"],"all results, both symmetries, any surface list, any previous content of the reading object",
 "The write/read test covers three files, one surface list each, fresh objects only.",
 [S+"write_boozmn.cpp",S+"read_boozmn.cpp"],["Booz_xform::write_boozmn","Booz_xform::read_boozmn"])
p("C13","A failing file operation is always reported as an error",
 "Whenever any operation of the file library fails while reading an equilibrium, writing results or reading results, the call raises an error instead of continuing with missing data or reporting success. "
 "Only the absence of the optional poloidal flux in a result file is tolerated.",
 ["fault_sequences"],"a failure with any error code at any one (or several) of the file-library calls",
 "Tests have no way of making an individual file-library call fail.",
 [S+"netcdf_reader.cpp",S+"netcdf_writer.cpp",S+"read_wout.cpp",S+"write_boozmn.cpp",S+"read_boozmn.cpp"],["NetCDFReader","NetCDFWriter"])
p("C14","No operation reads or writes outside its data or uses undefined values",
 "For every input that the interface accepts, at every verbosity level, importing, reading, running, writing and reading back access only memory that belongs to the objects involved, never use an uninitialised value, never divide an integer by zero and never trip an internal assertion. "
 "This includes the smallest sizes: two radial points, a single mode, one poloidal mode number, no toroidal modes.",
 ["inputs","configurations"],"all accepted inputs including minimal sizes, permuted mode tables, all verbosity levels",
 "Out-of-bounds reads of neighbouring heap data normally go unnoticed, and the samples never have minimal sizes.",
 [S+"init.cpp",S+"init_trig.cpp",S+"surface_solve.cpp",S+"check_accuracy.cpp",S+"init_from_vmec.cpp",S+"read_wout.cpp",S+"write_boozmn.cpp",S+"read_boozmn.cpp"],["Booz_xform"])
p("C15","The Python command runs exactly the requested transformation",
 "For every control file, the Python command-line program loads the equilibrium named by the extension, runs with the larger of the default and the requested poloidal and toroidal resolution on the listed surfaces in ascending order (all surfaces if none are listed), and then writes the result file named by the extension; reading the list stops at the first token that is not an integer. "
 "Line breaks and other white space between tokens are not significant; a file without resolution or extension is rejected before anything is run, and without exactly one argument only the usage text is printed.",
 ["inputs"],"all token sequences of the control file and all defaults of the loaded equilibrium",
 "The tests run two control files.",
 ["src/booz_xform/_cli.py"],["main","_parse_input_file"])
p("C16","The C++ command runs exactly the requested transformation",
 "For every control file, the compiled command-line program loads the equilibrium named by the extension, runs with the larger of the default and the requested poloidal and toroidal resolution on the listed surfaces in ascending order (all surfaces if none are listed), and then writes the result file named by the extension; reading the list stops where the text is no longer an integer. "
 "A file that cannot be opened or lacks resolution or extension is rejected before anything is loaded, and without exactly one argument only the usage text is printed.",
 ["inputs"],"all token sequences of the control file and all defaults of the loaded equilibrium",
 "The C++ program is only exercised by hand-run tests on sample control files.",
 [S+"driver.cpp"],["driver"])
p("C17","The angle tables hold cos and sin of every multiple of every grid angle",
 "For every list of poloidal and toroidal angles, every number of field periods and every maximum mode number from zero up, the computed tables contain cos(m theta), sin(m theta), cos(n nfp zeta) and sin(n nfp zeta) for every mode number up to the maxima, and nothing outside the tables is touched.",
 ["inputs","configurations"],"all real angles, all nfp, all maximum mode numbers >= 0",
 "The unit test samples one small grid and one pair of maxima.",
 [S+"init_trig.cpp"],["init_trig"])
p("C18","surfplot draws |B| of the chosen surface over one field period",
 "The surface plot's data is the sum over all modes of the |B| amplitudes (cosine, and sine if asymmetric) of the selected surface times cos/sin(m theta - n phi), on a grid with phi from 0 to 2 pi/nfp and theta from 0 to 2 pi of the requested size, drawn filled or as lines as requested with the requested number of contours and all extra options passed on. "
 "The title shows the flux label of that surface, and results given as an object or as a file name are treated alike and left unmodified.",
 ["inputs"],"all amplitudes, mode tables, surfaces, grid sizes and options",
 "The plot tests only check that no exception is raised.",
 ["src/booz_xform/plots.py"],["surfplot","handle_b_input"])
p("C19","symplot and modeplot draw the right modes, values, colours and labels",
 "The symmetry plot draws exactly the modes with |m| <= max_m and |n| <= max_n nfp (the (0,0) mode only if requested) against the flux label or its square root, with magnitudes on a logarithmic axis and signed values otherwise, coloured by whether m and n vanish (and by n = +-nfp m if detail is requested), with one legend entry naming each group that is drawn. "
 "The mode plot draws the requested number of modes (or all, if there are fewer) that are largest in magnitude on the outermost surface, in descending order, each labelled with its own mode numbers; a removed helicity is drawn as zero; neither modifies the results.",
 ["inputs"],"all amplitudes, mode tables, limits and options",
 "The plot tests only check that no exception is raised.",
 ["src/booz_xform/plots.py"],["symplot","modeplot"])
p("C20","wireplot draws curves lying on the selected surface",
 "The Boozer curves of the wire plot lie on the selected surface: at Boozer angles (theta, phi_B) they pass through R and Z summed from that surface's spectra at the toroidal angle phi_B - nu, one curve per requested contour in each angle, and the solid surface is the same surface displaced by 0.002 along its in-plane poloidal normal. "
 "The original-angle curves are drawn from the original amplitudes of the same surface if requested and available, and the outermost surface is used if none is selected.",
 ["inputs"],"all amplitudes, both symmetries, surfaces, contour counts, refinement and options",
 "The plot library is not available in the test environment, so nothing about this function is tested.",
 ["src/booz_xform/plots.py"],["wireplot"])
p("C21","The symmetric and asymmetric algorithms agree on symmetric input",
 "For stellarator-symmetric data, a run in asymmetric mode with all asymmetric amplitudes zero gives the same |B|, R, Z, nu and Jacobian spectra, profiles and flux labels as a run in symmetric mode, and all its additional asymmetric spectra are zero.",
 ["inputs","configurations"],"all amplitudes of symmetric input, all mode tables and resolutions",
 "The two modes are tested on different equilibria against stored files; no test compares them on the same data.",
 [S+"surface_solve.cpp",S+"init.cpp"],["Booz_xform::surface_solve"])
p("C22","Python attributes and methods are the C++ quantities of the same name",
 "Each input and output quantity exposed to Python reads and writes the C++ quantity of the same meaning, and each method (reading, importing, running, writing) forwards its arguments unchanged and in the documented order to the C++ operation, including keyword names and default values. Inputs can be written and outputs cannot; writing one attribute changes no other; a failing C++ operation raises an exception in Python.",
 ["inputs","configurations"],"all attributes and methods, all values",
 "Tests touch a subset of attributes; a swapped pair that no test reads stays unnoticed.",
 [S+"bindings.cpp"],["pybind11_init__booz_xform"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

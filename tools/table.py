prop('C01', 'Every pulse quantity agrees with itself in all its units',
 'Whenever a pulse is asked for the same quantity in two units (time, time step, time window, ordinary and angular frequency, frequency spacing, wavelength, centre wavelength, centre frequency, repetition rate), the two answers differ exactly by the unit factor, and angular frequency, frequency and wavelength satisfy w = 2*pi*f and wavelength*f = c. Setting a quantity in one unit has the same effect as setting it in the other, and reading it back gives what was set.',
 ['inputs', 'configurations'], 'all even grid sizes, time windows, centre wavelengths, repetition rates and spectra',
 'The tests compare a few scalar values of one pulse; no test compares a value across units or for arbitrary grids.',
 [PB], [('unit-suffixed properties and setters', PB)], ['unit-suffixed properties of a pulse'])
prop('C02', 'Time and frequency grids are reciprocal and centred',
 'For every way of building a pulse (setters, constructor size, clone, dictionary load, window expansion, interpolation to a new centre, subset), a pulse of N points and time window T has time samples k*T/N, angular frequencies 2*pi*(f_centre + k/T) for k = -N/2..N/2-1, and wavelength c/f. The centre sample is time zero and the centre wavelength, and spacing products obey dF*dT*N = 1.',
 ['inputs', 'configurations'], 'all even sizes, time windows, centre wavelengths, subset bounds',
 'Unit tests build a handful of fixed sizes and never check the grid of a clone, a subset, or a loaded pulse.',
 [PB], [('grid properties derived from size, window and centre', PB)], ['grid properties of a pulse'])
prop('C03', 'Derived values are never stale after a setting changes',
 'After any grid setting of a pulse is changed (size, window, centre wavelength, in any unit, by clone, load or expansion), every derived grid value read from it equals what a freshly built pulse with those settings reports, whatever was read before. Likewise a crystal with caching enabled returns the index for the pulse, axis, temperature, angle and data it is asked for, and a caller modifying a returned array does not change later answers.',
 ['histories', 'inputs'], 'all read-change-read sequences of one or two changes, over all symbolic settings',
 'Staleness needs a read, a change and a second read; the tests read each pulse once after building it.',
 [PB, XB, PPLN, AGGSE], [('cache invalidation in the setters', PB), ('index cache keyed by pulse grid and axis', XB)], ['derived pulse grids', 'crystal index for a pulse'],
 state=[('cached grids', 'wavelength/frequency/time arrays kept between reads', PB), ('index cache', 'refractive index arrays kept per crystal', XB)])
prop('C04', 'Separate pulses, fibers and crystals do not influence one another',
 'Building, changing, loading or caching in one pulse, fiber or crystal never changes anything observable about another one, including one it was cloned from. Defaults of later-built objects are not changed by what was done to earlier ones.',
 ['histories', 'inputs'], 'pairs of instances, each followed through construction, modification and re-reading, over all symbolic settings',
 'Tests build one object per test; sharing between instances only shows with two live objects.',
 [PB, DP, FIB, JFL, XB, PPLN, AGGS, AGGSE], [('per-instance state set in constructors', PB), ('per-instance fiber specification', FIB), ('per-instance index cache and properties', XB)], ['public properties of both instances'])
prop('C07', 'Transforms and spectral operations use one centred convention',
 'Going to the frequency domain is the centred inverse DFT divided by the number of points and going to the time domain is its exact inverse, along the first axis unless told otherwise; a pulse always stores and returns field and spectrum consistent with that pair. Time offset, spectral and temporal chirp, applied phase, band filter, rotation of the spectrum to a new centre and zero padding of the window act at the time or frequency each sample stands for in that convention.',
 ['inputs'], 'all fields and spectra of every even size, every grid and every chirp/offset/phase/band parameter',
 'The transform tests check one fixed array; a sign, scaling or sample-order slip in an operation is invisible for symmetric pulses.',
 [FFT, PB], [('centred transform pair', FFT), ('spectral and temporal operations', PB)], ['time field and spectrum of a pulse', 'transform functions'])
prop('C34', 'Generated pulses have the requested shape, chirp and grid',
 'A generated sech, Gaussian or sinc pulse has exactly the documented amplitude profile of the requested peak power and width centred at time zero, the requested size, window, centre wavelength and repetition rate, and the requested spectral or temporal chirp. A continuous wave is constant in time or a single spectral line at the requested offset, and a noise pulse is the documented flat floor of arbitrary phase.',
 ['inputs', 'configurations'], 'all powers, widths, chirps, offsets, windows and even sizes',
 'The tests check one sech, one Gaussian and a few noise statistics with fixed numbers and zero chirp.',
 [DP, PB], [('pulse constructors', DP)], ['time field, spectrum and grid of the pulse'])
prop('C05', 'Operations leave the objects passed to them as they were',
 'Handing a pulse, fiber, crystal, array, list or dictionary to any constructor, setter, transform, calculator, loader, or to fiber propagation or the three-wave-mixing problem leaves its observable contents unchanged, during that operation and through later use of the objects built from it. In particular the propagated pulse and fiber, the pump, signal and crystal of a mixing problem, coefficient lists, dispersion tables and pulse dictionaries keep their values.',
 ['inputs', 'histories'], 'all array contents and settings, for every listed public operation, including repeated calls',
 'Tests look at results, not at whether the inputs survived; in-place edits hide behind aliasing and need a second use to show.',
 [PB, DP, FIB, CAL, JFL, XB, PPLN, AGGSE, TC, BEAM, HV, SSFM, DFG, FFT], [('copies taken on input', PB), ('table conversion', CAL), ('problem set-up', DFG)], ['arguments after the call'])
prop('C06', 'Arrays handed in or out are never shared with the object behind them',
 'Editing an array obtained from a pulse, fiber, crystal, pulse dictionary or propagation result never changes what that object reports later, and an array kept by the caller is never overwritten by later changes of the object. Likewise editing an array after passing it to a setter or loader does not change the object.',
 ['histories', 'inputs'], 'get-edit-get, set-edit-get and get-change-compare sequences over all contents',
 'Aliasing is only visible to a caller that edits a returned array and then asks again; no test does.',
 [PB, FIB, XB, PPLN, AGGSE, SSFM, BEAM], [('copies of the stored and cached arrays', PB), ('cached index', XB), ('result arrays', SSFM)], ['arrays returned by public accessors'])
prop('C08', 'Results do not depend on the FFT library or sample-order setting',
 'The forward and inverse transforms used inside fiber propagation and wave mixing, and one whole split step, give the same mathematical result whether pyfftw is installed or not and whether the solver works in centred or native FFT sample order. Nesting or repeating transforms never mixes up their buffers.',
 ['configurations', 'inputs'], 'both FFT libraries, both sample orders, all fields of every even size, any dispersion, gain and nonlinear response',
 'A test environment has one FFT library and one setting; the others are never executed.',
 [SSFM, DFG, 'src/pynlo/interactions/FourWaveMixing/global_variables.py'], [('transform wrappers', SSFM), ('mixing products', DFG)], ['field after a step', 'transform wrappers'])
prop('C15', 'A split step is fourth-order Runge-Kutta in the interaction picture',
 'One step of fiber propagation advances the field by the documented interaction-picture fourth-order Runge-Kutta formula for the given dispersion, gain and nonlinear response, for any step length and direction, with nothing remembered from earlier steps of other lengths or directions. Without nonlinearity it is exactly exp(h*(i*beta + gain/2)), a forward step followed by a backward step restores the field, and an empty medium leaves it unchanged.',
 ['inputs', 'histories'], 'all fields, step lengths, dispersions, gains and an arbitrary nonlinear response',
 'A wrong Runge-Kutta weight only changes the convergence order; a test with a tolerance on one soliton does not see it.',
 [SSFM], [('split step', SSFM)], ['field after a step'])
prop('C16', 'Propagation covers exactly the requested distance',
 'Propagating over a distance applies the medium for exactly that total distance, neither overshooting nor stopping short, whatever initial step is configured and however the step is adapted, forwards and backwards. With n output steps the positions are n+1 equally spaced points, column i holds the field and spectrum after i+1 equal stretches, and the returned pulse equals the last column on the input grid.',
 ['schedules', 'inputs'], 'every sequence of accepted, rejected and resized steps (loop invariant); n = 1, 2, 3 output steps',
 'The accepted step sequence depends on data; tests run a couple of sequences and compare spectra with loose tolerances.',
 [SSFM], [('adaptive stepping loop', SSFM), ('output loop', SSFM)], ['output positions, fields and pulse'])
prop('C18', 'The three mixing fields drive each other as the coupled-wave equations say',
 'For all pump, signal and idler fields, index curves and positions in the crystal, the derivative of each field is 2i d W/(n c) times the product of the other two fields: convolution for the pump, correlation for signal and idler. Fields are scaled to the area of the smallest of the three beams at that position, or to the waveguide area, and carry the phases of index, common retarded frame and, on request, focus; the type of the crystal selects polarisations. In a poled crystal the sign is + in the first and - in the second half of every period, chirped periods included.',
 ['inputs', 'configurations'], 'all fields, index curves, waists, positions; unpoled, birefringent, poled and chirped crystals, with and without the focus phase; fixed example periods',
 'Tests integrate one crystal and compare the output power with a loose tolerance; sign, phase or scaling slips of one field change it little.',
 [DFG, BEAM, HV, XB], [('mixing derivative and poling', DFG), ('field to power factors', BEAM)], ['derivative of the three fields'])
prop('C20', 'Fiber dispersion, nonlinearity and gain follow the documented units',
 'A fiber given GVD coefficients per m or per km, a D table in ps/nm/km, a refractive index table, a flat gain or a measured gain spectrum reports to a pulse exactly the propagation constant (with carrier phase and group delay removed) and gain those data mean on the pulse frequency grid, with coefficients expanded about their own centre wavelength. The second-order dispersion and D parameter it reports are those of that propagation constant; asking again or loading again gives the same answer.',
 ['inputs', 'configurations'], 'all coefficients, centre wavelengths, tables and pulse grids',
 'The tests compare one fiber from a fixed table at one wavelength; unit and sign slips for the other formats are not exercised.',
 [FIB, CAL, JFL], [('dispersion of a fiber on a pulse grid', FIB), ('table conversion', CAL)], ['propagation constant, gain and dispersion queries of a fiber'])
prop('C26', 'The nonlinear response is Kerr, self-steepening and delayed Raman as documented',
 'For any field, the nonlinear response used in fiber propagation is gamma times the intensity convolved with (1-f_R) instantaneous plus f_R delayed response, where the delayed response is causal, has unit area and the chosen (simple or full) shape, plus the self-steepening term i/w0 d/dT of gamma|A|^2 A when enabled. Disabling Raman or self-steepening removes exactly that contribution, and the result does not depend on the sample order setting.',
 ['inputs', 'configurations'], 'all fields, gammas, Raman fractions and times, all option combinations, both sample orders',
 'Tests propagate one soliton with these effects disabled or at one setting.',
 [SSFM], [('nonlinear operator and Raman response', SSFM)], ['nonlinear response of the solver'])
prop('C27', 'Adaptive steps are discarded, kept and resized by the measured error',
 'In adaptive fiber propagation the error of a step is the relative norm of the difference between one full and two half steps; a step is redone at half size only if the error exceeds twice the tolerance, is kept above that only at the smallest step size, and a discarded step leaves field and position as they were. A kept step stores the extrapolated combination (16*fine - coarse)/15; the next step shrinks only when the error exceeds the tolerance and grows exactly when it is below half the tolerance, apart from the clamp to the distance left.',
 ['schedules', 'inputs'], 'every path through one iteration, over all fields and errors',
 'Which branch runs depends on data; a test sees the sequences of one or two fields.',
 [SSFM], [('adaptive stepping loop', SSFM)], ['field, position and step after an iteration'])
prop('C28', 'Media that change along their length are sampled at the right position',
 'A fiber with position-dependent dispersion (coefficients, D or index tables) or nonlinearity reports the values of the position it is asked for, in any order of queries, and of the entrance by default; generating the fiber anew forgets the profiles. Propagation with per-segment reloading uses in each segment the values at that segment\'s start, and without reloading those at the entrance throughout.',
 ['inputs', 'histories'], 'all profiles (uninterpreted functions of position), positions and query orders; 2 and 3 segments',
 'Tests have no position-dependent medium beyond one check of a single value.',
 [FIB, SSFM], [('profile functions of a fiber', FIB), ('reloading between segments', SSFM)], ['fiber queries at a position', 'field after each segment'])
prop('C32', 'Mixing problems and results keep pump, signal and idler apart',
 'A mixing problem starts from the three fields in fixed slots, with the idler on a grid centred at the difference frequency of pump and signal and with the pump\'s points, window and rate, on private copies of the given pulses. From a solver output it returns for each saved position the pump, signal or idler pulse asked for, in any order: the saved field of that slot with the propagation phase of its own index in the frame of the pump, at its own centre wavelength, leaving the raw output alone. The field and beam containers return what was stored per slot, and copies are independent.',
 ['inputs', 'histories'], 'all fields, index curves, positions and grids; two saved rows; isotropic and birefringent crystals; every slot and pair of slots',
 'Tests read one field of one run; a swapped slot, phase or centre wavelength elsewhere passes.',
 [DFG, FLD + 'field_classes.py'], [('problem set-up and results interface', DFG), ('field containers', FLD + 'field_classes.py')], ['start vector, idler grid, returned pulses and positions'])
prop('C33', 'However a fiber was obtained it is complete and forgets its past',
 'Whether generated from coefficients, loaded from the fiber collection (coefficients or table), loaded from a file with or without gain, or given position functions, a fiber answers every query (length, nonlinearity, gain, propagation constant, second-order dispersion, D), and its answers do not depend on what the same object held before. Every fiber in the shipped collection has the data and units its format needs.',
 ['histories', 'configurations'], 'all ordered pairs of ways to fill one fiber object, all coefficients and tables; all shipped fibers',
 'Tests fill each object once.',
 [FIB, JFL, 'src/pynlo/media/fibers/general_fibers.txt'], [('loaders of a fiber', FIB), ('fiber collection', JFL)], ['fiber queries'])
prop('C09', 'Phase-only operations keep magnitudes, undo and add up',
 'Time offset, dispersion, applied spectral phase, dechirping, delay removal, rotation of the spectrum and the grating compressor leave the spectral magnitude of every sample (up to the rotation), the total spectral power and the grid and repetition rate of the pulse unchanged; temporal chirp leaves the magnitude in time unchanged. Applying the opposite offset, dispersion, phase or chirp restores the field, and dispersions applied one after the other add up.',
 ['inputs', 'histories'], 'all spectra of every even size, all grids, chirps, offsets, phases, and compressor geometries',
 'A missing factor i or a lost sign still gives plausible spectra for the one pulse a test looks at.',
 [PB, TC], [('phase operations', PB), ('compressor phase', TC)], ['spectrum, field and grid of the pulse'])
prop('C10', 'Energy and power of a pulse are what was asked for',
 'The energy per pulse is the trapezoidal time integral of the power in joules and does not depend on the repetition rate; setting it makes it exactly the requested value while only scaling the field, and cloning, chirping in time and padding the window keep it. A generated pulse asked for an average power has exactly that power at its repetition rate, otherwise exactly that peak power; a continuous wave has the requested power at every time and in its spectrum, and a pulse built from a measured trace has the requested energy or average power.',
 ['inputs', 'configurations'], 'all fields, energies, powers, repetition rates, windows and even sizes; all measured traces',
 'Tests check one energy with one window; scaling errors that cancel for the default window or repetition rate stay hidden.',
 [PB, DP], [('energy integral and scaling', PB), ('power scaling of generated pulses', DP)], ['energy per pulse, field, spectrum'])
prop('C11', 'Copies and saved pulses come back identical',
 'Cloning a pulse, converting it to a dictionary and loading it, interpolating it to its own centre, and composing these, reproduces field, spectrum, energy, every grid quantity, size, window, centre and repetition rate, also after the source pulse was modified. A pulse written to its text file format and read back with the same settings, with the phase flipped both times or not at all, has the same spectrum, field, energy and grid.',
 ['inputs', 'histories'], 'all fields and grids; chains of clone, dictionary and setter operations; both settings of the phase flip',
 'Tests compare a clone of a default pulse; a setting dropped by a copy only shows when it differs from the default.',
 [PB, DP], [('clone and dictionary conversion', PB), ('text file writer', PB), ('pulse from text file', DP)], ['all public pulse quantities of both pulses'])
prop('C12', 'Invalid requests are refused and change nothing',
 'A request that makes no sense raises an error instead of returning something: padding at an unknown side, an unknown noise or gate type, a subset not smaller than the pulse, an unknown dispersion format or crystal axis, a non-boolean caching switch, compressor derivatives of order zero or below and higher-order dispersion of order two or below, a wavelength or window that is evidently in metres or seconds, mixing fields of different size or with overlapping wavelength grids, waveguide mixing without an area, and a beam overlap index that is not 0, 1 or 2. The pulse, crystal or device asked is as it was before, and the valid neighbours of these requests are answered.',
 ['inputs', 'histories'], 'all pulses and grids; every listed request and its valid neighbours',
 'No test makes an invalid request, and the state after a refused one is never looked at.',
 [PB, DP, FIB, TC, XB, AGGSE, AGGS, DFG, FLD + 'field_classes.py'], [('argument checks', PB), ('order checks', TC), ('grid overlap check', DFG)], ['error raised', 'state afterwards'])
prop('C13', 'A pulse answers nothing before it is complete, and then correctly',
 'Until size, time window and centre have all been set, every request for a grid, the field, the energy or any operation on the field raises an error, and asking repeatedly gives the error again; the window cannot be set before the size. Completing the settings afterwards, in any order and in any unit, gives exactly the grids and field of a normally built pulse, and no field is reported before one was set.',
 ['histories', 'configurations'], 'all proper subsets of settings, all public reads and operations, all orders of the setters, both unit families',
 'Tests always build complete pulses in one order.',
 [PB], [('readiness flag and guards', PB)], ['error or value of every public read'], state=[('readiness', 'all three settings known', PB)])
prop('C14', 'The mixing integrator is the eighth-order Runge-Kutta method it claims',
 'For every right-hand side, one accepted step of the mixing integrator satisfies all conditions of order 8, its two error estimates come from embedded methods of order 5 and 3 combined as documented, and its dense output is of order 7 and joins the two end values. A step is accepted exactly when its error is at most 1 and the next step length follows the documented limits; a rejected attempt leaves no trace in value, position or derivative.',
 ['inputs', 'schedules'], 'all right-hand sides, fields, step lengths and errors; all 200 rooted trees up to order 8',
 'A wrong digit in one of about 150 coefficients lowers the order but every test with a tolerance still passes because the step size adapts.',
 [ODE + 'dopr853.py', ODE + 'dopr853_constants.py', ODE + 'dopr853_controller.py', ODE + 'steppers.py'],
 [('stages of a step', ODE + 'dopr853.py'), ('coefficients', ODE + 'dopr853_constants.py'), ('step size control', ODE + 'dopr853_controller.py')],
 ['value, derivative, error and dense output of a step'])
prop('C17', 'The integration driver ends at the requested point and saves on the grid',
 'Whatever initial step is given and however steps are reduced or grown, an integration applies contiguous steps that end exactly at the requested end point, in either direction, returns the value there, and with dense output saves exactly the equally spaced positions from start to end, each once and in order, with the values the stepper gives for them; without dense output every accepted step is saved once. Growing the save buffers loses nothing; too many or too small steps raise an error.',
 ['schedules', 'inputs'], 'six step schedules, both directions, 1, 4 and 8 saves, with and without dense output and buffer growth; all right-hand sides',
 'The accepted steps depend on the data, so the tests see one schedule; a save missed at a step boundary shows only for particular schedules.',
 [ODE + 'steppers.py'], [('driver loop', ODE + 'steppers.py'), ('save buffers', ODE + 'steppers.py')], ['final value, saved positions and values'])
prop('C29', 'Grating compressor dispersion is self-consistent',
 'For every grating, separation and diffracted wavelength the ray angles satisfy the grating equation, the group delay of one pass is that of the Treacy geometry and its frequency derivative is the reported single-pass dispersion; the compressor dispersion is twice that, its higher orders are frequency derivatives of it, and the single-pass orders are derivatives of the delay in fs^(n+1). Applying the compressor multiplies the spectrum by a pure phase that equals the integral of the two-pass group delay up to a linear phase and vanishes at the pulse centre, leaving magnitudes and grid unchanged.',
 ['inputs'], 'all gratings, angles of incidence and diffraction, separations, pulses; derivative orders 1 to 3 of the delay and 3 to 5 of the phase',
 'No test touches the compressor; sign, factor-of-two and unit errors look plausible for any single number.',
 [TC], [('angles and delay', TC), ('derivatives', TC), ('phase on a pulse', TC)], ['angles, delays, dispersion orders, spectrum after the compressor'])
prop('C30', 'Crystal index, phase matching and group quantities are consistent',
 'For every wavelength, temperature, angle, axis and length a crystal reports the published index formula of its material on each axis, the mixed index of its angle, and wave number, group velocity, delay, dispersion and mixing bandwidth that follow from that index. Given two of three mixing wavelengths the third conserves energy; the returned angle makes the pump wave vector the sum of the other two, and the poling period cancels the phase mismatch left by the requested detuning. The chirped poling profile runs linearly from its start to its stop value over the crystal length, and the inverse search for a signal minimises the squared misfit in period between pump and limit.',
 ['inputs', 'configurations'], 'all wavelengths, temperatures, angles, lengths, both coefficient sets of lithium niobate, three crystals, every missing wavelength',
 'Two spot values of one crystal are tested; a changed coefficient, exponent, sign or unit elsewhere passes.',
 [XB, PPLN, AGGS, AGGSE], [('group quantities and poling profile', XB), ('lithium niobate index and poling period', PPLN), ('silver gallium index and phase matching', AGGSE)], ['index, wave number, angle, period, wavelengths, group quantities'])
prop('C31', 'Beams follow Gaussian optics in the crystal',
 'For every waist, wavelength grid, index and position: confocal parameter, Rayleigh range, radius, curvature and Gouy phase are those of a Gaussian beam in the medium; the factor from power to field is 1/sqrt(area n eps0 c) with the beam or waveguide area; the overlap of two beams is the coupling coefficient of their waists and curvatures, symmetric, 1 for a beam with itself, and constant 1 with no Gouy phase in the waveguide. Matching a waist to another beam or to a central waist gives equal Rayleigh ranges, and the optimal waist is searched by the overlap integrated over the crystal length.',
 ['inputs'], 'all waists, areas, grids, indices, positions on either side of the focus, both axes and orders',
 'Tests never use beams; these formulas enter every mixing simulation as factors that are hard to see in its output.',
 [BEAM, HV, XB], [('Gaussian beam', BEAM), ('waveguide beam', HV), ('index on the pulse grid', XB)], ['radius, curvature, phase, field factor, overlap, matched waists'])
prop('C21', 'Noise, coherence and power-goal runs do what their options say',
 'Adding noise adds to every frequency sample an independent normal amplitude, scaled by one photon energy of that frequency or by the square root of its photon number, with a uniformly random phase, and changes nothing else; the same seed gives the same noise. The coherence of a set of runs is the modulus of the mean over all pairs of different runs of the normalised cross spectrum, each run starting from its own noisy copy of the unchanged input with the options passed through, and repeats with the same seed. A search for a power goal ends only when the power of the last run is within the tolerance, returning that run and its scale.',
 ['inputs', 'histories', 'configurations'], 'all pulses, seeds and both noise types; 2 and 3 trials with symbolic fields; 9 power responses with their guesses and tolerances',
 'Tests do not use noise; statistics of one random run tell nothing about a missing factor, a shared field or a pair left out.',
 [PB, SSFM], [('noise', PB), ('coherence of runs', SSFM), ('search for a power goal', SSFM)], ['noisy spectra, coherence, calls of the propagation, delivered power'])
prop('C35', 'Averages, autocorrelation and spectrograms describe the stored field',
 'For every field the mean frequency is weighted by spectral power and independent of the size of the field, and the mean wavelength is that of the mean frequency; the autocorrelation is the correlation of the temporal power with itself at the shifts of the time grid. The spectrogram is the modulus of the spectrum of the field seen through the shifted gate (a Gaussian of given width, or the field itself), on axes of delay and frequency that cover the window and the band. Interpolating to a new centre takes the field at the new frequencies, zero outside; none of this changes the pulse.',
 ['inputs'], 'all fields, even sizes, windows, centres, gate widths and numbers of delays',
 'No test looks at these outputs; they are judged by eye, where a mirrored axis or wrong weight is easily missed.',
 [PB], [('averages', PB), ('spectrogram', PB), ('autocorrelation', PB)], ['mean values, correlation, spectrogram and its axes'])
prop('C23', 'Everything the library refers to exists',
 'Every module of the package is valid Python, every import, name, own attribute and attribute of a package object that the source reads exists somewhere, no local is read where no path has assigned it, no read-only property is assigned, and every call between parts of the package passes the arguments its callee accepts. So no option, branch or format ends in an unknown name.',
 ['code'], 'all modules, functions and call sites under src/pynlo, whether or not a test reaches them',
 'Python looks names up when a line runs; most branches (formats, plots, file writers, optional physics) are reached by no test.',
 [PB, DP, FIB, XB, SSFM, DFG, FLD, BEAM, HV, TC, ODE, JFL, CAL], [('package modules', 'src/pynlo/')], ['name, attribute and import errors; wrong argument errors'],
 technique='whole-package name, attribute, import and call-signature resolution over the syntax tree, with class hierarchies and a may-be-bound dataflow for locals',
 note='An attribute of an object of unknown class is only required to exist on some class or installed library; two sites in the unfinished self-phase-modulation terms of the mixing problem are recorded as known findings.')
prop('C36', 'Mixing runs written to a file are read back as they were',
 'For every problem, solver output and parameter added to a series, the reader returns for each run and step three separate pulses whose fields are the saved pump, signal and idler in that order, on the grid (points, centre, window, rate) each had when it was written, and the parameter of that run. The default is the last step of the last run; reading in turn gives each run once and then nothing; run numbers outside the series are refused. Series and files do not mix, and opening a series again for writing replaces that series only.',
 ['inputs', 'histories'], 'all fields, grids, rates and parameters, any number of points; series of one and two runs of two and three steps, two series and two files',
 'Nothing in the test suite writes or reads such a file; a swapped field or a transposed table still looks like a pulse.',
 [RW], [('writing a run', RW), ('reading a run', RW)], ['pulses and parameters returned by the reader'],
 note='PyTables is replaced by an in-memory model of groups and arrays; what it does on disk is not analysed. ' + NOTE)

prop('C22', 'Computing has no side effects that were not asked for',
 'Importing the package and calling any function that computes (building or changing pulses, fibers, crystals and beams, propagating, mixing, integrating, averaging) draws no figure, reads or writes no file, reads neither clock nor keyboard, does not end the process and changes no process-wide setting such as numpy error handling, warnings, environment or random seed. Random numbers are consumed only by noise, by the noise idler of a mixing problem and by coherence trials, and the generator is reseeded only when a seed is given. Files are read and written only by the operations that take a file or a database.',
 ['inputs', 'call sites'], 'every importable module and every public operation with its default options, along every path of the call graph',
 'A test sees the value returned; a figure opened, a generator reseeded or a warning filter changed inside a call does not alter it.',
 [PB, DP, FIB, CAL, XB, PPLN, SSFM, DFG, FLD, BEAM, HV, TC, ODE], [('importing', ODE + 'steppers.py'), ('coherence trials', SSFM), ('building a mixing problem', DFG)],
 ['library calls with an effect that each public operation can reach'],
 technique='interprocedural effect analysis: the abstract interpreter follows each public operation through the source and records every library call that draws, touches files, settings or random state, compared with the effects the operation exists for')

prop('C37', 'Answers depend on present contents only, never on earlier calls',
 'Whatever a pulse, fiber, crystal, beam, compressor, mixing problem, fiber solver at a fixed step, transform or pulse constructor returns is determined by its arguments and the present contents of the objects involved. Asking again gives the same answer; asking with other arguments, after a setting changed, of another object of the kind, or about a pulse changed in place gives the answer a new object would give in a fresh session. Answers given earlier are not changed by later calls.',
 ['histories', 'inputs'], 'every public query before and after other arguments, other objects, setter calls and in-place changes, for all symbolic contents; every way of filling a fiber after every other',
 'Tests ask each object once; a cache with a missing key, a shared default or a reused result buffer answers the first call correctly.',
 [PB, DP, FFT, FIB, CAL, XB, PPLN, AGGS, AGGSE, BEAM, HV, TC, SSFM, DFG], [('cached refractive indices', XB), ('cached grids and fields of a pulse', PB), ('work arrays of the solver', SSFM), ('filling a fiber', FIB)],
 ['values returned by repeated public queries'],
 note='The reference for a later answer is the first answer with the changed inputs renamed in it, so no formula of the library is assumed. The adaptive step a fiber solver carries from one run to the next is outside: the step is held fixed. ' + NOTE)

prop('C19', 'Propagation converges to the exact solution as the tolerance is tightened',
 'As the requested local error of fiber propagation or the tolerances of the mixing integrator go to zero, the fields at every saved position converge to the solution of the differential equation.',
 ['inputs', 'numerical parameters'], 'all smooth media and pulses, every tolerance',
 'A test compares a few runs at a few tolerances.', [SSFM, ODE], [('adaptive fiber propagation', SSFM), ('adaptive mixing integration', ODE + 'steppers.py')], ['fields at the saved positions'],
 na='The distance to the exact solution is a runtime quantity: bounding it needs Lipschitz constants of the medium and an analysis of accumulated truncation and rounding error, which no static argument in reach gives. What the source fixes (order conditions, step formula, acceptance and resizing of steps, exact distance) is claimed as C14, C15, C16, C17 and C27.')

prop('C24', 'Lossless propagation conserves energy and photon number within the tolerance',
 'Over a lossless medium, the energy of a fiber pulse without self-steepening, and the photon flux of pump, signal and idler in mixing, stay constant within the requested tolerance from entrance to exit.',
 ['inputs', 'numerical parameters'], 'all lossless media, pulses and tolerances',
 'A test checks a few runs; the drift depends on the step sequence.', [SSFM, DFG], [('fiber propagation', SSFM), ('mixing', DFG)], ['energy and photon flux at the saved positions'],
 na='The integrators conserve these quantities only up to a truncation error set by runtime step sizes, so the statement has no exact static form; the equations being integrated, from which the conservation follows, are claimed as C15, C18 and C26.')

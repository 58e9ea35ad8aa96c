"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
S = 'src/tools21cm/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=S + c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


prop('P01', 'Derived cosmology constants never go stale',
     'After any sequence of the public parameter setters (Hubble parameter, matter, Lambda and baryon density, helium abundance, sigma8, spectral index), every derived constant that later calculations read (H0, H0 in cgs, flatness-closing Lambda under either of its names, q0, critical and matter density, hydrogen number density, mean molecular weight, the mean 21-cm temperature prefactor) equals its defining formula evaluated on the current primary parameters. Setting one parameter changes no other primary parameter, except that setting the matter density also sets Lambda so that the universe stays flat.',
     ['histories', 'inputs'], 'every finite sequence of setter calls with any admissible values, starting from the import-time state',
     'The tests import one fixed cosmology and call one or two setters; staleness shows only in the derived values nobody reads back, after particular setter orders.',
     ['const.py', 'conv.py', 'cosmo.py'],
     [('setters', 'const.py:set_hubble_h, set_omega_matter, set_omega_lambda, set_omega_baryon, set_abundance_helium'), ('Hubble rate', 'const.py:Hz')],
     ['module attributes of tools21cm.const', 'Hubble rate returned at any redshift'],
     [('primary parameters', 'h, Omega0, OmegaB, helium abundance', 'const.py')])

prop('P02', 'Simulation unit constants follow the box; an invalid box changes nothing',
     'For every supported box size the unit-conversion constants (box length, box mass, grid mass, length, time and velocity scale) equal their defining formulas in the box size, the mesh size belonging to that box and the cosmology current at the call, so box mass equals mesh-cell mass times the number of cells and velocity conversion is length scale over time scale times (1+z). An unsupported box size is refused and leaves every previously set constant unchanged. Conversion helpers between simulation units, comoving sizes, frequencies and redshifts are the stated formulas of these constants.',
     ['histories', 'inputs'], 'every box size, supported or not, any earlier unit state and cosmology, any redshift',
     'The tests never set a box at all; the relations hold between constants written in one call and read in another module.',
     ['conv.py', 'const.py'],
     [('box table and constants', 'conv.py:set_sim_constants'), ('velocity conversion', 'conv.py:velconvert')],
     ['module attributes of tools21cm.conv'])

prop('P03', 'Cosmology conversions are mutually inverse and agree for any input container',
     'Redshift to frequency, comoving distance to angle, physical to comoving size, virial temperature to halo mass and redshift to comoving distance are inverted by their opposite conversions (the distance one up to table interpolation). Every such conversion gives elementwise the same numbers for a Python scalar or an array, of integers or floats, and returns a scalar for a scalar.',
     ['inputs'], 'every redshift, frequency, size, mass or temperature in the physical range, in every container and numeric type',
     'The tests compare a handful of float redshifts with astropy; the integer and array paths are separate code and are not called.',
     ['cosmo.py', 'helper_functions.py'],
     [('conversions', 'cosmo.py:nu_to_z, z_to_nu, cdist_to_z, z_to_cdist, p_to_c, c_to_p, deg_to_cdist, angular_size_comoving, Tvir_to_M, M_to_Tvir'), ('containers', 'helper_functions.py:outputify')])

prop('P04', 'Distances and times are the FRW integrals of one Hubble rate',
     'The Hubble rate squared is H0 squared times (Omega_m (1+z)^3 + Omega_L), comoving distance is c times the integral of its inverse, luminosity and angular-diameter distances are that distance times and over (1+z), and proper size is angular-diameter distance times angle. The age of the Universe is the integral of da/(a H) up to the scale factor of the redshift. The age decreases and the comoving distance increases strictly with redshift.',
     ['inputs', 'configurations'], 'every redshift and every flat cosmology set through the public setters',
     'Two fixed cosmologies at a few redshifts are compared to loose tolerance; monotonicity and the relations between the functions are never checked.',
     ['cosmo.py', 'const.py'],
     [('distance functions', 'cosmo.py:z_to_cdist, luminosity_distance, angular_size, angular_size_comoving'), ('ages', 'cosmo.py:z_to_age'), ('Hubble rate', 'cosmo.py:hubble_parameter')])

prop('P05', '21-cm brightness temperature is a local, linear map of the input cubes',
     'Each voxel of the differential brightness temperature depends only on the ionised fraction, density and (where given) spin temperature of that same voxel: it equals the redshift prefactor times neutral fraction times density over the cosmic mean baryon density (times 1 - T_cmb/T_s when spin temperature matters, with T_s the temperature of the neutral part of a partially ionised cell, never below adiabatic cooling), so it is linear in the density and a fully ionised voxel is exactly zero. For lightcones every slice uses its own redshift and CMB temperature whatever the line-of-sight axis, and the mean-signal functions use the same prefactor.',
     ['inputs', 'configurations'], 'every cube or lightcone shape and content, every redshift, every line-of-sight axis, density in physical units',
     'Tests check one constant cube; per-slice redshift assignment on other axes or shapes and locality are not reached.',
     ['temperature.py'],
     [('signal', 'temperature.py:calc_dt, calc_dt_lightcone, calc_dt_full, calc_dt_full_lightcone, mean_dt')])

prop('P06', 'Mean subtraction and weighted means are exact per slice',
     'Subtracting the mean signal leaves every slice perpendicular to the chosen axis with zero mean, changes each voxel of a slice by the same amount, and is idempotent; the overdensity variant divides the result by the slice mean. A mass-weighted ionised fraction is the density-weighted average and lies between the smallest and largest input, a function applied along the line of sight returns exactly the function of each slice in order, and skewness and kurtosis of a field are invariant under shifting and positive rescaling.',
     ['inputs'], 'every array shape, content and line-of-sight axis, negative axis numbers included',
     'Tests use one small cube and one or two axes; per-slice identities quantify over all slices, shapes and axes.',
     ['statistics.py', 'helper_functions.py'],
     [('slice means', 'statistics.py:subtract_mean_signal, signal_overdensity, apply_func_along_los'), ('moments', 'statistics.py:mass_weighted_mean_xi, skewness, kurtosis')])

prop('P07', 'Thomson optical depth is a non-decreasing integral, map and mean alike',
     'The optical depth to each redshift is zero at redshift zero, never decreases with redshift, is linear in the ionised-fraction history between the first given redshift and the requested one, and does not depend on the order in which the redshift-fraction pairs are given. The optical-depth map of a lightcone gives along each line of sight exactly what the one-dimensional calculation gives for that line of sight.',
     ['inputs'], 'every set of ionised fractions in [0,1] and redshifts, in every order, every lightcone shape',
     'The test checks one history against one number.',
     ['tau.py'],
     [('optical depth', 'tau.py:tau'), ('map', 'tau.py:tau_map')])

prop('P08', 'Every lightcone slice interpolates the two bracketing coeval cubes',
     'Every slice of a lightcone equals the slice at the periodic slice index of a combination of exactly the two coeval cubes whose redshifts bracket the slice redshift, with linear weights (or the declared step or sigmoid weights) that sum to one and equal one at the cube redshift itself. This holds for any number and spacing of the input cubes and output redshifts, including brackets that contain no output slice, and for every line-of-sight axis and vector component.',
     ['inputs', 'configurations'], 'every list of input redshifts and files, every output redshift list, box, axis and interpolation kind',
     'The tests contain no lightcone at all; the cached upper cube is stale only when a bracket holds no slice.',
     ['lightcone.py'],
     [('slice loop', 'lightcone.py:make_lightcone'), ('interpolation', 'lightcone.py:_get_interp_slice, _get_slice'), ('cube choice', 'lightcone.py:make_velocity_lightcone')])

prop('P09', 'Lightcone redshift grids are equally spaced, increasing and in range',
     'The redshifts made for a lightcone are strictly increasing. The distance grid starts at the lowest requested redshift and stops below the highest; from each entry to the next the frequency falls by exactly the width of one cell at the local Hubble rate. The frequency grid ends at the highest requested redshift and stops above the lowest; consecutive entries are exactly one channel apart. Neither grid can be extended by one more step inside the interval. A lightcone cut to an angle, frequency or redshift window is a contiguous sub-array of the input whose redshift bounds match the window up to one cell.',
     ['inputs', 'configurations'], 'every redshift interval, box size, cell number and cosmology',
     'No test calls them; spacing and range are statements about every consecutive pair.',
     ['lightcone.py'],
     [('grids', 'lightcone.py:redshifts_at_equal_comoving_distance, redshifts_at_equal_frequency'), ('cuts', 'lightcone.py:get_lightcone_subvolume')])

prop('P10', 'Redshift-space distortion moves signal but conserves it',
     'Distorting a signal box with a velocity box whose displacements stay below the box depth conserves the total signal of every line of sight, leaves the box unchanged when velocities are zero, moves signal only along the chosen axis and by the distance velocity/(Hubble rate) in comoving units, periodically. It is linear in the signal, does not depend on the numeric type of the input, and works alike along every axis.',
     ['inputs', 'configurations'], 'every signal and velocity box, axis, redshift and particle number',
     'No test calls it.',
     ['pv_mpm.py', 'lightcone.py'],
     [('mesh-moving scheme', 'pv_mpm.py:get_distorted_dt'), ('velocity conversion', 'conv.py:velconvert')])

prop('P11', 'Smoothing kernels are normalised and smoothing preserves the mean',
     'Every smoothing kernel (Gaussian and top-hat, 2-d and 3-d) has non-negative entries that sum to one and is symmetric about its centre cell (a top-hat when it spans an odd number of cells). Smoothing a square slice is the periodic convolution with the centred kernel, so it does not move features; smoothing a slice or a coeval cube maps a constant to itself and preserves the mean. Interpolating a field to another resolution keeps the requested shape and a constant field constant, and every line-smoothing window is normalised.',
     ['inputs', 'configurations'], 'every width and kernel size, every field shape and content',
     'Tests check the sum of one kernel and the shape of one output.',
     ['smoothing.py', 'fft_functions.py'],
     [('kernels', 'smoothing.py:gauss_kernel, gauss_kernel_3d, tophat_kernel, tophat_kernel_3d'), ('smoothing', 'smoothing.py:smooth_gauss, smooth_tophat, smooth_coeval, smooth_with_kernel'), ('periodic convolution', 'fft_functions.py:fftconvolve')])

prop('P12', 'Lightcone smoothing treats each slice with that slice\'s own beam',
     'Smoothing a lightcone perpendicular to the line of sight applies to each slice exactly the two-dimensional kernel whose width corresponds to that slice\'s redshift and never mixes slices. The parallel smoothing replaces each slice by the plain mean of the neighbouring slices whose redshifts lie within the beam width (times the ratio) at that redshift, from the lower edge up to the first slice not below the upper edge. The result has one slice per redshift, in the order given, whether redshifts increase, decrease or only the lowest is given, for any ratio and maximum baseline.',
     ['inputs', 'configurations'], 'every lightcone, redshift list, box size, baseline and bandwidth ratio',
     'The test suite only smooths coeval cubes.',
     ['smoothing.py'],
     [('perpendicular', 'smoothing.py:smooth_lightcone_gauss, smooth_gauss'), ('parallel', 'smoothing.py:smooth_lightcone_tophat, smooth_lightcone')])

prop('P13', 'The n-d power spectrum is |FT|^2 times volume over cells squared',
     'The power spectrum of a field is the centred squared modulus of its discrete Fourier transform times box volume over number of cells squared, hence never negative, unchanged by cyclic shifts, quadratic in the amplitude, and satisfies Parseval\'s identity. The cross spectrum is the real part of the product of one transform with the conjugate of the other with the same normalisation: symmetric, linear in each field, and equal to the auto spectrum for two equal fields, for cubic and non-cubic boxes in 1 to 3 dimensions.',
     ['inputs'], 'every field, shape, dimensionality and box size',
     'Tests compare a few random boxes with a loose tolerance.',
     ['power_spectrum.py', 'power_spect_fast.py'],
     [('spectra', 'power_spectrum.py:power_spectrum_nd, cross_power_spectrum_nd'), ('box sizes', 'power_spectrum.py:_get_dims')])

prop('P14', 'Binned spectra are means over bins that use each mode exactly once',
     'The spherically averaged, the cylindrical and the mu-resolved spectra are, in every bin, the mean of the n-d spectrum over exactly the modes whose wavenumber (and mu or transverse/parallel wavenumber) falls in that bin; no mode is in two bins, and the mode counts reported are the sizes of these sets. The dimensionless spectrum is k^3/(2 pi^2) times the spectrum, wavenumbers are those of the box, the last bin includes its upper edge, and excluding zero modes removes only the modes without a transverse wavenumber.',
     ['inputs', 'configurations'], 'every spectrum, bin specification, box size, shape and line-of-sight axis',
     'Tests compare totals on one box; misassigned edge modes shift a bin average within test tolerance.',
     ['power_spectrum.py', 'helper_functions.py'],
     [('averages', 'power_spectrum.py:radial_average, power_spectrum_1d, power_spectrum_2d, power_spectrum_mu'), ('modes', 'power_spectrum.py:_get_k, _get_mu, _get_kbins')])

prop('P15', 'Euler characteristic and Betti counts are those of the cubical complex',
     'The Euler characteristic of a binary periodic box is vertices minus edges plus faces minus cells of the cubical complex of its ionised cells, the same for every implementation offered and invariant under translation, rotation and reflection. It equals the zeroth minus first plus second Betti numbers returned by the package.',
     ['inputs'], 'every binary box of every shape',
     'No stable test covers the topology functions.',
     ['topology.py', 'ViteBetti.py', 'ViteBetti_cython.pyx', 'morph.py'],
     [('complex', 'ViteBetti.py:CubeMap, EulerCharacteristic'), ('Euler', 'topology.py:EulerCharacteristic'), ('Betti', 'topology.py:betti0, betti1, betti2')])

prop('P16', 'Region finding labels every and only the thresholded cells',
     'Region masks are exactly the cells on the chosen side of the threshold (fixed or from the triangle rule); k-means masks are one side of the values of the field and superpixel masks are unions of whole superpixels with the lowest means. Friends-of-friends labelling assigns a non-zero label to exactly the cells at or above the threshold, equal labels to exactly the connected ones, and returns volumes that list every region once and sum to the number of cells in the mask. The percolating cluster and the volume distributions derived from the labels use these same volumes.',
     ['inputs'], 'every box, threshold and boundary configuration, fully ionised and fully neutral boxes included',
     'The tests use one box with isolated bubbles.',
     ['bubble_stats.py', 'Friends_of_Friends.py', 'identify_regions.py', 'percolation.py'],
     [('labelling', 'bubble_stats.py:fof, Friends_of_Friends.py:FoF_search'), ('thresholds', 'identify_regions.py:bubbles_from_fixed_threshold'), ('volume distribution', 'bubble_stats.py:plot_fof_sizes')])

prop('P17', 'Bubble size distributions are normalised probability densities',
     'Mean-free-path size distributions are those of straight rays started in cells on the chosen side of the threshold and followed until the interpolated mask ends: non-negative, every ray counted once, a function of the mask alone (asking for cells below a threshold equals asking for the complementary mask) and zero for an empty mask. Spherical-average distributions count every cell in the largest sphere whose mean passes the threshold and add to one. Radii are in units of the box length and scale with it.',
     ['inputs', 'configurations'], 'every box, threshold, ionised/neutral choice, box size and bin number',
     'The tests check the peak position of one box.',
     ['bubble_stats.py', 'mfp_np.py', 'spa_np.py'],
     [('MFP', 'bubble_stats.py:mfp, mfp_np.py:mfp2d, mfp3d'), ('SPA', 'bubble_stats.py:spa, spa_np.py:spa_np')])

prop('P18', 'Simulation files survive a write-read round trip',
     'Writing a box to each supported format (binary cubes with and without header, density, velocity, ionised-fraction, temperature and ionisation-rate files, source lists, dictionaries) and reading it back yields the same shape, the same values in the same positions up to the precision of the format, and the same header quantities.',
     ['inputs', 'histories'], 'every array shape, content, and supported format',
     'No test writes or reads a file.',
     ['read_files.py', 'helper_functions.py', 'density_file.py', 'xfrac_file.py', 'vel_file.py', 'temper_file.py', 'irate_file.py', 'source_file.py'],
     [('binary cubes', 'helper_functions.py:save_cbin, read_cbin, save_raw_binary, read_raw_binary'), ('C2-Ray files', 'xfrac_file.py:XfracFile, density_file.py:DensityFile'), ('dictionaries', 'read_files.py:write_dictionary_data, read_dictionary_data')])

prop('P19', 'Coeval cubes at a redshift come from the files nearest that redshift',
     'Selecting files or redshifts in a range returns exactly those within it in increasing order, and the redshift of a file name is the longest number written in it. A coeval cube requested at a redshift equals the file of that redshift when it exists and otherwise the linear interpolation in redshift of the two files that bracket it (the C2-Ray density: the next earlier file, rescaled), whatever other files the folder holds and in whatever order they are listed.',
     ['inputs', 'configurations'], 'every set of files, names, listing order and requested redshift',
     'No test touches these functions.',
     ['read_files.py', 'usefuls.py', 'helper_functions.py'],
     [('interpolation', 'usefuls.py:coeval_21cm, coeval_xfrac, coeval_dens, coeval_vel; read_files.py'), ('selection', 'helper_functions.py:_get_redshifts_in_range, determine_redshift_from_filename')])

prop('P20', 'uv coverage rotates baselines rigidly and grids every track sample once',
     'Earth rotation maps every antenna baseline to uv-tracks of unchanged length, and gridding counts every baseline sample inside the grid exactly once at the cell nearest to its uv coordinate, and nothing outside, symmetrised with the mirrored sample where requested. The daily map is the average over the observed time samples, so its total equals the mean number of baselines within the grid and does not depend on how the samples are split over parallel jobs.',
     ['inputs', 'configurations', 'schedules'], 'every antenna layout, redshift, box, grid, declination, integration time and job number',
     'No test in the stable set runs the telescope code.',
     ['radio_telescope_layout.py', 'radio_telescope_calibration.py'],
     [('rotation', 'radio_telescope_layout.py:earth_rotation_effect'), ('gridding', 'radio_telescope_layout.py:grid_uv_tracks, get_uv_daily_observation')])

prop('P21', 'Instrument noise follows the radiometer equation; unsampled modes are empty',
     'The noise rms scales inversely with the square root of bandwidth, integration time and observing time and with the number of baselines as the radiometer equation states, natural weighting divides the noise in a uv cell by the square root of its sampling and zeroes cells without sampling, and an image observed through a uv coverage loses exactly the modes with no sampling. Conversions from Jansky to Kelvin and back are inverse, and the system equivalent flux density is the formula in system temperature and effective area.',
     ['inputs', 'configurations'], 'every image, uv map, redshift, telescope setting and unit',
     'No stable test covers noise.',
     ['radio_telescope_noise.py', 'radio_telescope_sensitivity.py'],
     [('response', 'radio_telescope_noise.py:apply_uv_response_noise, apply_uv_response_on_image'), ('rms', 'radio_telescope_sensitivity.py:sigma_noise_radio'), ('units', 'radio_telescope_sensitivity.py:jansky_2_kelvin, kelvin_2_jansky, get_SEFD')])

prop('P22', 'An interrupted uv-map run resumes to the one-shot result',
     'A lightcone uv-map computation interrupted at any point and restarted from its file ends with the same maps as an uninterrupted run, recomputes no redshift already stored, and keeps all stored entries of other redshifts. A stored file made with different observation parameters is refused without being overwritten.',
     ['crash_points', 'histories', 'configurations'], 'every interruption point, checkpoint interval, redshift list, repetition and job number',
     'Needs interruption at each point; no test runs it.',
     ['radio_telescope_noise.py'],
     [('cache', 'radio_telescope_noise.py:get_uv_map_lightcone')],
     None, [('uv file', 'dictionary from redshift key to (uv map, number of antennae) plus parameters', 'radio_telescope_noise.py:get_uv_map_lightcone')])

prop('P23', 'The primary beam multiplies each frequency slice by its own beam',
     'Every beam pattern lies in [0,1], is one at the field centre and circularly symmetric, and the primary beam multiplies each frequency slice by the beam whose width is that of the slice\'s redshift, for every choice of frequency axis and every array of square slices, leaving the input unchanged.',
     ['inputs', 'configurations'], 'every array of square slices, axis, field of view, redshift and beam kind',
     'No test covers it.',
     ['primary_beam.py'],
     [('beams', 'primary_beam.py:primary_beam, circular_beam')])

prop('P24', 'Label-wise maps replace each labelled region by its own statistic',
     'Applying an operator to labelled data returns for every label the operator over exactly the voxels with that label, and a superpixel map gives each voxel its region\'s value: region means preserve the total signal, are idempotent and do not depend on how regions are numbered.',
     ['inputs'], 'every data and label array, labels given in any order',
     'The tests only run one segmentation end to end.',
     ['superpixels.py'],
     [('label statistics', 'superpixels.py:apply_operator_labelled_data, superpixel_map'), ('moments', 'superpixels.py:get_combined_mean_std')])

prop('P25', 'Gridded haloes conserve mass and land in the cell that contains them',
     'Putting haloes on a grid over the given box adds each halo\'s mass (or count) to exactly the cell that contains its position, so the grid total is the total mass whatever the number or clustering of haloes. Halo catalogues read with a mass range and a number limit contain exactly the haloes of that range in file order up to the limit.',
     ['inputs'], 'every halo list, position, mass, box and grid size',
     'No test covers haloes.',
     ['nbody_file.py', 'halo_list.py', 'line_intensity.py', 'nbody_tools.py'],
     [('gridding', 'nbody_file.py:halo_list_to_grid, Halo2Grid'), ('selection', 'halo_list.py:HaloList')])

prop('P26', 'Analysis calls leave their inputs and the global cosmology unchanged',
     'No analysis function (temperature, statistics, power spectra, smoothing, lightcone building and cutting, bubble statistics, noise and uv response, primary beam, coordinate conversions) modifies any array, list or dictionary the caller passed in, or any global cosmology or unit constant. Calling the same deterministic function twice with the same arguments therefore returns the same result.',
     ['inputs', 'histories'], 'every analysis function, option and input',
     'Tests look at return values, not at the arguments after the call.',
     ['power_spectrum.py', 'smoothing.py', 'temperature.py', 'statistics.py', 'lightcone.py', 'radio_telescope_noise.py', 'helper_functions.py', 'primary_beam.py', 'cosmo.py'],
     [('windows', 'power_spectrum.py:apply_window'), ('noise response', 'radio_telescope_noise.py:apply_uv_response_noise'), ('index lookup', 'helper_functions.py:find_idx'), ('mean subtraction', 'statistics.py:subtract_mean_signal')])

prop('P27', 'Angular and observed-coordinate resampling keeps position and constants',
     'Padding a slice periodically places at every output pixel the input pixel at the same position modulo the box, cropping takes the centre of the field, and converting a lightcone from comoving to angular or frequency coordinates and back keeps constant fields constant, keeps the number and order of slices, and samples each slice at the angular scale of its own redshift.',
     ['inputs', 'configurations'], 'every lightcone shape, redshift list, box size and cell number',
     'No test covers coordinate conversion.',
     ['angular_coordinates.py'],
     [('padding', 'angular_coordinates.py:_get_padded_slice, padding_lightcone'), ('resampling', 'angular_coordinates.py:physical_lightcone_to_observational, observational_lightcone_to_physical')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P))

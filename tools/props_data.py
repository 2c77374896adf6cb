# ---------------------------------------------------------------- image series
prop('C01', 'Processed image series apply the requested operations, in the given order',
     'A processed image series presents exactly the frames of its frame list, each equal to the source frame with the '
     'listed operations (dark subtraction clipped at zero, the seven flips/rotations, cropping, adding a constant, '
     'inserting filler rows or columns) applied in the listed order, however often it is read and however such series are nested. '
     'Length, shape, iteration, negative and slice/array indexing and region reads all agree with those frames, out of '
     'range indices are refused, and the source series is never changed.',
     ['inputs', 'configurations', 'histories'],
     'Every source series (size, pixel type), every operation list, frame list, nesting depth and access path.',
     'The tests apply one or two operations to one small array; the claim is over all operation sequences, pixel types, '
     'nestings and access paths, where order and type interactions matter.',
     ['hexrd/core/imageseries/process.py', 'hexrd/core/imageseries/baseclass.py', 'hexrd/core/imageseries/load/array.py'],
     [('operation dispatch in list order', 'ProcessedImageSeries._process_frame'),
      ('frame selection', 'ProcessedImageSeries.__getitem__ / frame_list'),
      ('region reads', 'ProcessedImageSeries.get_region, ImageSeries indexing')],
     technique='TLA+ image-pipeline model; TLC-enumerated and random pipelines replayed and judged by trace validation',
     level_note='Exact on integer frames. Gauss-Laplace filtering and user-supplied operations are not modelled.')

prop('C02', 'Saving and reloading an image series preserves frames and metadata',
     'Writing an image series to any supported format (HDF5, frame cache in both containers, image files, raw images read back) and loading it yields the '
     'same number of frames, shape, frame contents (at or below the frame-cache threshold: zero) and metadata, whatever '
     'the number of writer/reader threads. Writing never alters the series or the metadata it was given, and a reloaded '
     'image-file or raw series honours the empty-frame, per-file and total-frame limits of its description.',
     ['inputs', 'configurations', 'schedules'],
     'Every frame content, pixel type, metadata tree, threshold, worker count, file layout and limit setting.',
     'Round-trip tests use one dense array and flat metadata; nothing covers threshold edges, nested metadata, '
     'multi-file layouts with limits, or thread counts together.',
     ['hexrd/core/imageseries/save.py', 'hexrd/core/imageseries/load/framecache.py', 'hexrd/core/imageseries/load/hdf5.py',
      'hexrd/core/imageseries/load/imagefiles.py', 'hexrd/core/imageseries/load/rawimage.py'],
     [('writers', 'imageseries.save.write'), ('frame cache reader', 'FrameCacheImageSeriesAdapter'),
      ('file/frame bookkeeping', 'ImageFilesImageSeriesAdapter, FileInfo')],
     technique='TLA+ store/load model; traces of real write/load runs validated by TLC',
     level_note='File formats are exercised through the installed h5py/numpy/fabio; other third-party decoders are trusted.')

prop('C03', 'Rotation-angle wedges and frames map onto each other consistently',
     'A wedge list assigns consecutive frames consecutive equal angle steps; a frame is reported for an angle exactly when '
     'the angle (modulo a turn) lies in that frame\'s half-open interval, together with the right wedge, and no frame is reported otherwise. '
     'Looking up a frame\'s own centre returns that frame, angle ranges map to exactly the frames '
     'they touch, and adding or deleting wedges keeps totals and per-frame angles consistent; inconsistent or '
     'non-contiguous omega metadata is rejected or split into the right wedges.',
     ['inputs', 'histories'],
     'Every sequence of wedge additions/deletions, every wedge geometry (including wrap-around) and every query angle/range.',
     'Tests query a couple of hand-picked wedges; boundary angles, wrap-around and multi-wedge histories are unbounded.',
     ['hexrd/core/imageseries/omega.py'],
     [('wedge bookkeeping', 'OmegaWedges'), ('angle lookup', 'OmegaImageSeries.omega_to_frame / omegarange_to_frames')],
     technique='TLA+ wedge state machine on integer degrees; TLC histories replayed, random traces validated',
     level_note='Angles are rational multiples of a degree that are exact in binary floating point.')

prop('C04', 'Image-series statistics equal the direct statistics of the frames used',
     'The maximum, minimum, sum, average, median and percentile images of a series over the first n frames equal those computed '
     'directly from these frames, for every n, frame count, chunk count and memory-buffer setting. '
     'The progressive versions yield, at every step, the statistic of the frames (or rows) processed so far and finish with the full result.',
     ['inputs', 'configurations'],
     'Every series length, frame limit, chunk count, buffer size and pixel contents.',
     'Tests compare one tiny series at default settings; chunking boundaries and buffer splits are not reached.',
     ['hexrd/core/imageseries/stats.py'],
     [('buffer/chunk partition', 'stats._row_ranges/_chunk_ranges and *_iter')],
     technique='TLA+ statistics model with exact rationals; TLC validates traces of every chunk yielded',
     level_note='Integer pixels; percentiles compared as exact rationals within float rounding.')

# ---------------------------------------------------------------- materials
prop('C05', 'Reflection exclusions stick to their reflections in every view',
     'However reflections are excluded (by mask, by index, by angle, spacing, intensity or multiplicity limits) and however the lattice, wavelength, angle limit '
     'or exclusion set is then changed, the set of excluded reflections is exactly the one selected, and every view '
     '(Miller indices, spacings, two-theta, multiplicities, structure factors, symmetric families, ids, ranges, counts) lists the same non-excluded reflections '
     'in the same order of increasing angle.',
     ['histories', 'inputs'],
     'Every history of exclusion, lattice, wavelength and angle-limit changes over any reflection list.',
     'Tests set one mask on one cubic list whose stored order is already sorted; order-changing histories are never reached.',
     ['hexrd/core/material/crystallography.py'],
     [('stored vs sorted order', 'PlaneData.exclusions, tThSort/tThSortInv, _thisHKL'),
      ('views', 'getHKLs, getSymHKLs, getTTh, getHKLID, getMultiplicity, structFact')],
     technique='TLA+ plane-data state machine; TLC histories replayed against PlaneData',
     level_note='The order of reflections by angle is taken from exact integer quadratic forms (1/d^2).')

prop('C06', 'Two-theta ranges and merged ranges cover exactly the shown reflections',
     'The two-theta range list has one interval per shown reflection, centred on its angle with the requested angular or strain width. '
     'Merging groups reflections exactly into the maximal chains of overlapping intervals (or of lines closer than the cull tolerance), each group listed once, '
     'in order, with the hull of its members\' ranges, so that no shown reflection is lost, repeated or split from an overlapping neighbour '
     '(with a cull tolerance, lines at the very same angle are listed as one).',
     ['inputs', 'configurations'],
     'Every reflection list, width setting, exclusion set and merge option.',
     'Tests look at one material with one width.',
     ['hexrd/core/material/crystallography.py'],
     [('range computation', 'PlaneData.getTThRanges'), ('merging', 'PlaneData.getMergedRanges')],
     technique='TLA+ interval-merging model; TLC judges recorded ranges',
     level_note='Interval endpoints are compared after exact scaling to integers.')

prop('C07', 'A material depends only on its current settings, not on how it got there',
     'After any sequence of changes to lattice parameters, space group, beam energy, minimum spacing, atoms or reflection exclusions, a material\'s lattice, '
     'reflection list, two-theta angles and structure factors equal those of a material built directly with the final settings, '
     'symmetry-constrained lattice parameters included. Exclusions survive such changes reflection by reflection, and copying or writing and reading a material '
     'leaves all of this intact (a material whose reflections are all excluded is saved without a choice of reflections).',
     ['histories', 'configurations'],
     'Every history of setter calls over every crystal system and of copies/saves/loads.',
     'Tests set one or two attributes on one material and check a few numbers.',
     ['hexrd/core/material/material.py', 'hexrd/core/material/unitcell.py', 'hexrd/core/material/crystallography.py'],
     [('dependent-state refresh', 'Material._newUnitcell/_newPdata/_hkls_changed, property setters')],
     technique='TLA+ settings state machine; TLC histories replayed on two real materials and compared',
     level_note='History independence is checked differentially; absolute values of reflections are checked by C13.')

# ---------------------------------------------------------------- config / utilities
prop('C08', 'Configuration lookups follow the documented merge, default and override rules',
     'A configuration file of several documents yields, for the n-th document, the key-wise recursive merge of documents one to n, where a '
     'later scalar, list or block overrides and an empty entry inherits. Reading a path returns the stored value, the '
     'supplied default when the path is absent, and otherwise fails (a path that leads through a plain value may also fail); setting a path makes exactly that path read back the new value, '
     'marks the configuration changed, and dumping and reopening preserves every value.',
     ['inputs', 'histories'],
     'Every document list, path, default and sequence of set/get/save/reopen.',
     'Tests use one fixture; the claim ranges over arbitrary nested documents and histories.',
     ['hexrd/core/config/config.py', 'hexrd/core/config/utils.py', 'hexrd/core/config/__init__.py', 'hexrd/core/config/root.py',
      'hexrd/core/config/dumper.py'],
     [('path access', 'Config.get/set'), ('document merge', 'config.utils.merge_dicts, config.open')],
     technique='TLA+ nested-map model; TLC histories replayed and random documents judged',
     level_note='Values are scalars, lists and blocks; YAML syntax itself is trusted.')

prop('C09', 'Memoised functions return what the function itself would return',
     'Calling a memoised function gives, for every call sequence, a result equal to that of the undecorated function on the same arguments, '
     'regardless of argument kinds (positional, keyword, arrays of any type or shape, containers) and of calls in between. '
     'The cache never holds more than its limit, evicts the least recently used entry, counts hits and misses truthfully, and cached arrays cannot be corrupted by callers.',
     ['histories', 'inputs', 'schedules'],
     'Every sequence of calls with arbitrary argument values and cache sizes.',
     'Tests make a handful of calls with plain arguments.',
     ['hexrd/core/utils/decorators.py'],
     [('key construction and LRU', 'decorators.memoize')],
     technique='TLA+ LRU-cache state machine; TLC histories replayed, random call traces validated',
     level_note='Argument identity is modelled as (kind, value, dtype, shape); hash collisions of the digest are ignored.')

prop('C16', 'Nested dictionaries survive the HDF5 and JSON stores unchanged',
     'Writing a nested dictionary (blocks, lists, strings, bytes, numbers, booleans, nothing, arrays of any type and shape) into the HDF5 or JSON stores and reading it back yields '
     'the same keys and equal values, at every depth, where HDF5 leaves out entries holding nothing, reads lists back as arrays and one-element lists as their element, and JSON refuses bytes. '
     'The encoders for plain JSON and YAML write the same values as plain numbers, text and nested lists. The stored dictionary and everything inside it is left exactly as it was given.',
     ['inputs'],
     'Every nested dictionary of the supported value kinds.',
     'Tests store one example per helper and never look at the input afterwards.',
     ['hexrd/core/utils/hdf5.py', 'hexrd/core/utils/json.py', 'hexrd/core/utils/yaml.py'],
     [('recursive store', 'unwrap_dict_to_h5 / unwrap_h5_to_dict'), ('array encoding', 'NumpyEncoder / NumpyDecoder')],
     technique='TLA+ tree-store model; TLC-generated trees round-tripped and judged',
     level_note='Keys are valid HDF5 link names.')

prop('C17', 'Old module paths and new module paths are the same modules',
     'For every relocated module, importing the old dotted name and the new one, in any order, by any import form, gives the very same module object, so that classes and module state are never duplicated. '
     'Submodules of a relocated package that have no old name of their own are found through the old package too, as the same object. Other names fail to import, and the import order never changes what a name resolves to. (Modules that cannot be imported by their new name either are left out.)',
     ['histories', 'programs'],
     'Every sequence of imports of old and new names, in every order.',
     'Tests import a few names in one process in one order.',
     ['hexrd/module_map.py', 'hexrd/__init__.py'],
     [('alias finder', 'ModuleAliasFinder / ModuleAliasImporter')],
     technique='TLA+ import-system state machine; TLC import orders replayed in fresh interpreters',
     level_note='Modules are imported in subprocesses; lazily broken modules at the base commit are excluded.')

prop('C20', 'Quantities with units convert consistently',
     'Converting a quantity between compatible units multiplies by the right factor, converting there and back is the identity, chained and direct conversions agree, '
     'energy and wavelength convert through E*lambda = hc, and incompatible units are refused. '
     'Adding, subtracting and scaling quantities act on the physical value, whatever units the operands carry, and leave the operands alone. (Energy and wavelength convert at least between keV and angstrom; between other units of the two they convert so or are refused.)',
     ['inputs'],
     'Every pair of supported units and every chain of conversions.',
     'Tests try a handful of pairs.',
     ['hexrd/core/valunits.py', 'hexrd/core/constants.py'],
     [('conversion table', 'valWUnit.cv_dict / getVal')],
     technique='TLA+ unit-group model with exact powers of ten; TLC enumerates all pairs and chains',
     level_note='Angles use exact rational multiples of pi; energies relative to hc.')

# ---------------------------------------------------------------- calibration / instrument
prop('C10', 'Calibration parameters round-trip and respect rigid-body constraints',
     'Exporting an instrument to a parameter list and importing it unchanged leaves every beam and detector setting unchanged, and importing changed '
     'values sets exactly the settings they name, for any detector, beam and distortion names. Under a group or system constraint the member detectors move '
     'as one rigid body by exactly the named rotation about the chosen centre and translation, other detectors stay put, and the constraint\'s parameters reproduce the applied motion. '
     'Lattice and grain parameters round-trip the same way, and every exported name is distinct.',
     ['histories', 'configurations'],
     'Every instrument layout and naming, constraint type, rotation centre and sequence of imports.',
     'Tests exercise one instrument with generic names and one constraint history.',
     ['hexrd/core/fitting/calibration/lmfit_param_handling.py', 'hexrd/core/fitting/calibration/relative_constraints.py'],
     [('parameter naming', 'create_instr_params / update_instrument_from_params'),
      ('rigid motion', 'RelativeConstraints, update_*_constrained_detector_parameters')],
     technique='TLA+ rigid-body state machine on the octahedral group and integer vectors; histories replayed',
     level_note='Rotations restricted to 90-degree elements so the model is exact; formulae are polynomial in the rotation entries.')

prop('C11', 'Instrument state and its panels never disagree',
     'After any sequence of changes to beams (energy, direction, source distance, active beam), eta reference, sample frame (chi, translation) or detectors, every panel of an instrument '
     'sees the beam it is assigned, the same eta reference and the same frame as the instrument. '
     'Writing the instrument description (YAML or HDF5) and building an instrument from it reproduces its id, beams, sample frame and every detector setting (in YAML a mask-array buffer becomes a zero border; a sole beam\'s name, the active beam and the eta reference are not part of a description; '
     'HDF5 holds no missing saturation level), and neither building, writing nor calibrating changes the dictionaries and arrays an instrument was built from or wrote. '
     'A rejected setting changes nothing, a temporary switch of the x-ray source is undone however its block ends, and values read from an instrument do not change when others are set.',
     ['histories', 'configurations'],
     'Every history of setter calls on instruments with one or several beams and detectors, and of write/load cycles.',
     'Tests build one instrument and set one attribute.',
     ['hexrd/core/instrument/hedm_instrument.py', 'hexrd/core/instrument/detector.py'],
     [('propagation to panels', 'HEDMInstrument setters, update_memoization/panel xrs'),
      ('serialisation', 'HEDMInstrument.write_config / Detector.config_dict')],
     technique='TLA+ instrument state machine; TLC histories replayed; write/load judged',
     level_note='Directions restricted to exactly representable axis/Pythagorean vectors.')

prop('C12', 'Detector pixel, position, mask and region bookkeeping agree',
     'Pixel coordinates and panel positions convert into each other consistently with the pixel size and panel centre (also with a region-of-interest offset), corners, edges and centre agree, '
     'and a point is on the panel exactly when it is inside the panel minus its buffer (margins or mask, edge inclusive). '
     'Splitting an instrument into chunks tiles the pixel grid exactly once and gives sub-panels that place every pixel at the same laboratory position as the parent, '
     'with the part of the parent mask that covers them (margins are kept as they are) and, if asked for, the region of interest they came from.',
     ['inputs', 'configurations'],
     'Every panel size, pixel pitch, placement, buffer, region and point.',
     'Tests check one panel and a few interior points; edges, masks, odd sizes and tiling are not reached.',
     ['hexrd/core/instrument/detector.py', 'hexrd/core/instrument/planar_detector.py', 'hexrd/core/instrument/hedm_instrument.py',
      'hexrd/core/utils/panel_buffer.py'],
     [('coordinate maps', 'Detector.pixelToCart/cartToPixel'), ('membership', 'Detector.clip_to_panel'),
      ('sub-panels', 'generate_chunks / chunk_instrument')],
     technique='TLA+ pixel-grid model; TLC-enumerated panels and points judged on recorded outcomes',
     level_note='Planar panels with dyadic pixel pitch so that arithmetic is exact.')

prop('C19', 'Patches of detector data read the right pixels',
     'Interpolating panel data returns the exact pixel value at pixel centres, the bilinear mix of the four surrounding pixels between them, and the '
     'designated fill off panel (or where the buffer masks it), for images of any type; nearest reading returns the pixel whose area contains the point. '
     'Reflection patches name, for each evaluation point, the pixel that contains it, and images shared by several panels are cropped to exactly the region of the panel.',
     ['inputs'],
     'Every panel size, image, point list and option.',
     'Tests compare a few interior points.',
     ['hexrd/core/instrument/detector.py', 'hexrd/core/instrument/hedm_instrument.py', 'hexrd/hedm/xrdutil/utils.py'],
     [('interpolation', 'Detector.interpolate_bilinear / interpolate_nearest'), ('patches', 'make_reflection_patches'), ('shared images', '_parse_imgser_dict')],
     technique='TLA+ exact rational interpolation model; TLC judges recorded values',
     level_note='Dyadic pitches and fractions.')

# ---------------------------------------------------------------- crystallography / orientation
prop('C13', 'Space-group symmetry, reflection families and absences are consistent',
     'For every space group the symmetry operations form a closed group, reflection families are complete orbits of it with the right multiplicity, '
     'the reflection list contains exactly one representative of every family within the spacing limit that is allowed, in increasing order of 1/d, and '
     'the point symmetry used for orientations is the group\'s proper Laue group. '
     'A reflection is removed as absent only if the group\'s own translations make its intensity vanish for every structure.',
     ['inputs', 'configurations'],
     'All 230 space groups, all Miller indices within a spacing limit and all lattices.',
     'Tests check counts for a few cubic materials.',
     ['hexrd/core/material/symmetry.py', 'hexrd/core/material/spacegroup.py', 'hexrd/core/material/unitcell.py',
      'hexrd/core/material/symbols.py', 'hexrd/core/material/crystallography.py'],
     [('group generation', 'symmetry.GenerateSGSym/GeneratePGSym'), ('reflections', 'unitcell.getHKLs, CalcStar, Allowed_HKLs'),
      ('absences', 'spacegroup.Allowed_HKLs, omitscrewaxisabsences, omitglideplaneabsences')],
     technique='TLA+ group model (exact integer/24ths operators); TLC checks closure, orbits, absences and judges the code\'s lists',
     level_note='All 230 groups; lattices with integer quadratic forms.')

prop('C14', 'Angle ranges and angle mapping respect the circle',
     'An angle is accepted by a list of ranges exactly when some range, travelled counter-clockwise (or clockwise on request) from its start to its stop, contains it, ends included, and whatever turn the '
     'angle or the range ends are written in; a range whose ends coincide is the whole circle. '
     'Mapping an angle into a period returns the equivalent angle inside that period, in both units, and angular differences are the shortest ones, never more than half a turn.',
     ['inputs'],
     'Every angle, range list, period and unit.',
     'Tests probe a handful of angles; wrap-around and end points form an unbounded family.',
     ['hexrd/core/rotations.py', 'hexrd/hedm/xrdutil/utils.py', 'hexrd/core/transforms/xfcapi.py',
      'hexrd/core/transforms/new_capi'],
     [('range test', 'validate_angle_ranges'), ('mapping', 'mapAngle, angularDifference')],
     technique='TLA+ circle model on integer degrees; TLC enumerates ranges x angles exhaustively and judges the code',
     level_note='Ends tested exactly at and one sixteenth of a degree around boundaries (outside the code\'s tolerance).')

prop('C22', 'Rotation representations convert into each other and compose correctly',
     'Quaternions, rotation matrices, exponential maps, axis-angle pairs and Euler angles of every convention offered convert into one another without changing the rotation, always as unit quaternions with non-negative scalar part, '
     'two-fold rotations and the identity included, singly or in batches. '
     'Products, inverses and vector rotation agree with matrix multiplication in the stated order.',
     ['inputs'],
     'Every rotation, pair of rotations, axis convention and batch size.',
     'Tests sample random rotations, which never hit half-turns, the identity or degenerate Euler angles.',
     ['hexrd/core/rotations.py', 'hexrd/core/transforms/xfcapi.py', 'hexrd/core/transforms/new_capi'],
     [('conversions', 'rotations.py quatOf*, rotMatOf*, expMapOf*, angleAxisOfRotMat, RotMatEuler'),
      ('composition', 'quatProduct, quatProductMatrix')],
     technique='TLA+ octahedral group model; TLC enumerates all elements, pairs and conventions; the code\'s answers judged exactly',
     level_note='24 cube rotations plus Pythagorean rotations: exact, and includes every degenerate case.')

prop('C23', 'Orientations reduce to the fundamental region consistently',
     'Reducing an orientation to the fundamental region returns a symmetrically equivalent orientation of smallest rotation angle, '
     'symmetrically equivalent orientations reduce to the same one (one of them, where several are equally close), and reducing twice changes nothing. '
     'The misorientation angle between two orientations is the smallest over all symmetric equivalents, is symmetric, invariant under crystal symmetry, and zero exactly for equivalent orientations.',
     ['inputs'],
     'Every Laue group, orientation and pair of orientations, one at a time or in batches.',
     'Tests check a few orientations of one Laue group.',
     ['hexrd/core/rotations.py', 'hexrd/core/material/symmetry.py'],
     [('reduction', 'toFundamentalRegion, ltypeOfLaueGroup, quatOfLaueGroup'), ('distance', 'misorientation, quat_distance')],
     technique='TLA+ model of the eleven rotation groups in Z[sqrt 2] and Z[sqrt 3]; TLC checks the group laws and judges reductions and misorientations exactly',
     level_note='Orientations with rational quaternions; the observed floats decode uniquely into the ring.')

# ---------------------------------------------------------------- diffraction / indexing
prop('C15', 'Orientation scoring and task splitting do not depend on the worker count',
     'The completeness score of an orientation is the fraction of its predicted reflections, among those that fall in the measured ranges, that hit intensity above threshold within the tolerance '
     'window, and the list of scores is in the order of the orientations and identical for any number of workers and any chunking. '
     'Splitting n tasks among workers covers every task exactly once in order.',
     ['schedules', 'inputs', 'configurations'],
     'Every list of orientations, map, tolerance, range and worker count.',
     'Tests run one map with one worker count.',
     ['hexrd/hedm/indexer.py', 'hexrd/core/utils/concurrent.py', 'hexrd/core/utils/multiprocess_generic.py'],
     [('scoring', 'paintGrid, _filter_and_count_hits, _check_dilated'), ('task split', 'distribute_tasks, GenericMultiprocessing')],
     technique='TLA+ scoring and worker-schedule model; recorded scores validated by TLC',
     level_note='Orientations on the cube group so that predicted angles are exact.')

prop('C18', 'Grid and polygon utilities are exact partitions',
     'Looking up a coordinate in a list of bin edges returns the bin that contains it, for ascending and descending edges, and marks coordinates outside. '
     'Cell connectivity lists every cell of the grid once with its own four corners in order, tolerance grids are symmetric and span exactly the requested width, polygon areas are exact, and clipping one convex polygon by another '
     'yields exactly their common region.',
     ['inputs'],
     'Every edge list, coordinate list, grid size and convex polygon pair.',
     'Tests use two or three grids.',
     ['hexrd/core/gridutil.py'],
     [('bin lookup', 'cellIndices'), ('connectivity', 'cellConnectivity'), ('clipping', 'sutherlandHodgman, computeArea, computeIntersection')],
     technique='TLA+ exact rational geometry model; TLC enumerates and judges',
     level_note='Integer/dyadic coordinates.')

prop('C21', 'Diffraction geometry is exact, invertible and batch independent',
     'The position where a reflection strikes a detector is the point where the ray, reflected by the lattice plane for the given beam, meets the panel plane, and is undefined when the diffracted ray does not reach the panel plane; '
     'mapping that position back recovers the angles and the reciprocal vector. '
     'Every result is the same whether reflections are processed singly or in batches of any size, and predicted rotation angles are exactly those at which the Bragg condition holds.',
     ['inputs'],
     'Every reciprocal vector, orientation, panel placement, beam, sample position and batch size.',
     'Tests compare a few dozen random rays at one size against stored numbers.',
     ['hexrd/core/transforms/xfcapi.py', 'hexrd/core/transforms/new_capi', 'hexrd/core/transforms/cpp_sublibrary'],
     [('ray tracing', 'gvec_to_xy'), ('inverse', 'xy_to_gvec, angles_to_gvec'), ('rotation solutions', 'oscill_angles_of_hkls')],
     technique='TLA+ exact rational ray model over the cube group and Pythagorean vectors; TLC judges the code',
     level_note='Rational inputs; positions compared to a few parts per million, rotation angles to 1e-4.')

prop('C24', 'Simulated diffraction patterns are complete and exact',
     'Simulating a pattern lists exactly the reflections that must appear: for a rotation series every reflection of every grain whose rotation solution lies in the asked rotation and azimuth ranges and whose spot is on the panel, once; '
     'for a Laue pattern every reflection whose energy lies in the asked ranges and whose spot is on the panel, named by the member of the pair that diffracts. '
     'Each entry carries its own identifier, indices, angles, energy and position, computed with the grain\'s orientation, place and strain, the sample\'s place and tilt, the beam, the azimuth reference and the energy correction; inputs are left alone.',
     ['inputs'],
     'Every cubic crystal, list of grains, panel placement, beam, range list, wavelength and way of calling.',
     'Tests compare one stored pattern, or replace the geometry by mocks.',
     ['hexrd/laue/simulation.py', 'hexrd/core/instrument/detector.py', 'hexrd/hedm/xrdutil/utils.py', 'hexrd/hed/xrdutil/utils.py'],
     [('Laue pattern', 'simulate_laue_pattern_on_panel, simulate_laue_pattern_on_instrument'), ('rotation series', 'simulate_rotation_series'), ('rotation series on one panel', 'simulateGVecs, _filter_hkls_eta_ome')],
     technique='TLA+ exact model of Bragg rotation solutions, ranges and ray tracing over rational geometry; TLC judges each reflection reported or left out by the code',
     level_note='Cubic crystals, isotropic strain; reflections with irrational rotation cosines are only checked for being possible.')

prop('C25', 'Eta-omega maps collect every count of a ring once',
     'The eta-omega map of a reflection holds, for every rotation step and azimuth bin, the sum of the counts (those below the threshold left out) of all pixels of all panels whose two theta lies in the range of the reflection and whose azimuth lies in the bin, '
     'and no value exactly where no panel has such a pixel or the step was not measured, however the scan is divided into wedges, for images of any type and any number of workers. '
     'There is one map for every reflection asked for (or shown), in that order, with the steps and bins it is labelled with. Archived maps are read back unchanged, with their plane data; images and plane data are left alone.',
     ['inputs', 'schedules'],
     'Every instrument, plane data, list of reflections, omega scan, image type, threshold, bin width and number of workers.',
     'Tests compare maps of one stored scan with one wedge, or replace the instrument by mocks.',
     ['hexrd/core/instrument/hedm_instrument.py', 'hexrd/hedm/instrument/generate_eta_omega_maps.py', 'hexrd/hedm/xrdutil/utils.py'],
     [('polar maps', 'HEDMInstrument.extract_polar_maps, _generate_ring_params, _run_histograms'), ('maps of all panels', 'GenerateEtaOmeMaps'), ('archive', 'EtaOmeMaps')],
     technique='TLA+ model of maps as sums over pixels, bins and wedges; TLC judges every cell of the maps the code makes of random instruments and images',
     level_note='Pixels are assigned to rings and bins by an independent ray calculation; pixels within round-off of an edge leave their cell open.')

prop('C26', 'The grain search looks at every orientation a spot allows',
     'A discrete fibre holds exactly the asked number of evenly spaced orientations that put the crystal direction onto the sample direction, or symmetric equivalents of them in the fundamental region, and the distance to a fibre is zero exactly on it and is that of the nearest symmetric equivalent. '
     'The seeds of an indexing run contain, for every connected spot above the threshold in every requested map, every orientation of the fibre through the spot\'s centre for that map\'s reflection, and nothing else, however the reflections are excluded or ordered, wherever the maps were never measured and for any number of processes; the maps are left alone. '
     'Clustering groups exactly the orientations above the completeness, one grain for each well separated group with enough members, whichever symmetric equivalents its members are, and the grain\'s orientation is the middle of its members.',
     ['inputs', 'schedules'],
     'Every symmetry, direction pair, number of divisions, map, list of seed reflections, threshold and set of scored orientations.',
     'Tests run one stored scan and compare a handful of grains.',
     ['hexrd/core/rotations.py', 'hexrd/hedm/findorientations.py', 'hexrd/core/imageutil.py'],
     [('fibres', 'discreteFiber, distanceToFiber'), ('seeds', 'generate_orientation_fibers, clean_map, discretefiber_reduced, find_peaks_2d'), ('clustering', 'run_cluster')],
     technique='TLA+ model of fibres as cyclic phases, spots as weighted pixels and grains as classes; TLC enumerates small worlds and judges what the code returns',
     level_note='Clusters are well separated; label method without smoothing for finding spots.')

prop('C27', 'Undistorting a detector undoes its distortion',
     'The inverse of a distortion takes a distorted point back to where it came from, for every supported kind and parameter and at every point including the centre and the axes, through the function itself and through the panel that carries it; applying follows the documented radial, quadrant or affine law; missing points stay missing, points are treated one by one, and the arguments are left alone. '
     'Setting parameters replaces them as a whole or, with a wrong count, not at all.',
     ['inputs', 'histories'],
     'Every kind, parameter list (all zero included), array layout and type, and sequence of parameter changes and applications.',
     'Tests use one parameter list per kind and mock the inverse.',
     ['hexrd/core/distortion/', 'hexrd/core/transforms/cpp_sublibrary/src/inverse_distortion.cpp', 'hexrd/core/instrument/detector.py'],
     [('functions', 'GE_41RT, Dexela_2923, Dexela_2923_quad, identity'), ('registry', 'get_mapping'), ('panels', 'cart_to_angles, angles_to_cart, cartToPixel with apply_distortion')],
     technique='TLA+ model of the distortion laws in exact fractions; TLC enumerates parameters and points and judges what the code returns',
     level_note='Inverse of points distorted by at most a few per cent.')

prop('C28', 'Crystal vectors, colours and variants agree with the crystal\'s symmetry',
     'Components of a vector converted between direct, reciprocal and cartesian axes come back unchanged, and lengths, angles and dot and cross products are those of the metric whichever components they are computed from. The cartesian symmetry operations are the point group\'s, once each. '
     'A direction is reduced to one of its own equivalents, equivalent directions have one colour in the orientation colour key of the Laue class, and others another. '
     'The variants of an orientation relationship are complete and without repetition, and as many as the parent\'s operations not shared with the child through the relationship allow.',
     ['inputs'],
     'Every space group, lattice, vector, pair of parallel planes and directions, and list of directions.',
     'Tests colour the orientations of one cubic crystal and never compute a variant.',
     ['hexrd/core/material/unitcell.py', 'hexrd/hedm/ipfcolor/', 'hexrd/phase_transition/variants.py'],
     [('components and products', 'TransSpace, CalcDot, CalcLength, CalcAngle, CalcCross, NormVec'), ('colours', 'reduce_dirvector, color_directions, color_orientations'), ('variants', 'getPhaseTransformationVariants')],
     technique='TLA+ model of metrics, point groups and shared operations in whole numbers; TLC enumerates crystals and relationships and judges what the code returns',
     level_note='Colours with the symmetry of the Laue class; groups coloured about other axes are known findings.')

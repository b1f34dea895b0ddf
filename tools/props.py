#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Frame-cache saving is exact under every worker schedule',
     'Saving an image series as a frame cache (npz or HDF5 style, to a file or into an open HDF5 group) with any number of '
     'worker threads gives a file that reads back with the same frame count, shape, dtype and metadata, each frame at its own '
     'index and equal to the source frame with every pixel at or below the threshold set to zero. '
     'The result does not depend on the number of workers or on how they interleave. '
     'An exception raised while reading a source frame reaches the caller of the save.',
     ['schedules', 'inputs', 'fault_sequences'],
     'all interleavings of the save worker threads at every statement of the writer; all worker counts, frame contents, thresholds and styles; any source frame failing',
     'Tests save a handful of series once under whatever schedule the OS gives; a worker sharing a buffer, a lost file-range reservation or a mixed-up frame only shows under particular interleavings.',
     ['hexrd/core/imageseries/save.py', 'hexrd/core/imageseries/load/framecache.py', 'hexrd/core/matrixutil.py'],
     [('per-thread buffers assigned in the pool initializer', 'save.py WriteFrameCache._write_frames_npz'),
      ('file range reserved under a lock', 'save.py WriteFrameCache._write_frames_fch5'),
      ('executor.map results consumed so worker exceptions surface', 'save.py')],
     [('buffer_ids', 'thread ident -> scratch row', 'save.py'), ('file_position', 'next free row in data/indices', 'save.py')],
     ['imageseries.write(ims, fname, "frame-cache", ...)', 'imageseries.open(fname, "frame-cache", ...)'])

prop('C02', 'Concurrent readers of a frame cache always see complete, correct frames',
     'However many threads read one frame-cache series (or several series opened on one file) and however they interleave, every '
     'read returns exactly the saved frame, whether whole, by region or by row/column indices. '
     'A read error while the cache is loaded reaches the reader that hit it, is not remembered, and the same read succeeds once the '
     'error has gone; no reader ever sees a partly loaded cache or blocks for ever.',
     ['schedules', 'fault_sequences', 'histories'],
     'all interleavings of reader threads during first access; all load worker counts; transient open/read failures at any I/O operation of the load',
     'Tests read from one thread after a clean load; the first-access window, and a load that fails part-way, are never exercised.',
     ['hexrd/core/imageseries/load/framecache.py'],
     [('double-checked lock around the lazy load', 'framecache.py _load_framelist_if_needed'),
      ('loaded flag set only after a full load', 'framecache.py _load_framelist_if_needed'),
      ('thread-pool group reader', 'framecache.py _read_framecache_fch5_group'),
      ('memoized loaders do not cache failures', 'framecache.py _load_framecache_npz/_load_framecache_fch5')],
     [('_framelist_was_loaded', 'lazy-load flag', 'framecache.py')],
     ['series[i]', 'series[i, rows, cols]', 'adapter.get_region'])

prop('C03', 'A re-saved frame cache is never served stale and shared frames stay intact',
     'Opening a frame cache (npz, HDF5 or YAML style) after it was last re-saved in place returns the contents of that save, for every history of saves, opens, reads, '
     'clock steps (forward or back) and other files in between, provided its modification time or size differs from those of every earlier save of that file. '
     'Series already loaded keep returning the frames they were loaded with. '
     'Nothing a caller does to a returned frame changes what any series returns later.',
     ['histories', 'inputs', 'schedules'],
     'all sequences of save / open / read / modify-returned-frame over several files, styles and shared loaders, with the file clock moving in either direction',
     'The memoized loader is keyed by file identity; whether the key suffices depends on the history of saves and opens, of which tests try one or two.',
     ['hexrd/core/imageseries/load/framecache.py', 'hexrd/core/imageseries/save.py'],
     [('cache key includes mtime_ns and size', 'framecache.py _stat_identity, lru_cache loaders'),
      ('loaded arrays made read-only; frames returned as copies', 'framecache.py')],
     [('lru_cache of loaders', 'shared frame lists', 'framecache.py')],
     ['imageseries.open', 'series[i]'])

prop('C04', 'Reading a frame gives the same image whatever other readers do',
     'For every file-backed image series (raw image, HDF5, multi- and single-frame image files, processed views of these, rectangles of these), reading frame i returns frame i of '
     'the data exactly, independently of which frames were read before, of other threads and iterators reading the same series at the same '
     'time, and of the order in which the file system lists the files. '
     'A read that fails or comes up short raises rather than returning a wrong image, and later reads are unaffected. '
     '(Regions of an HDF5 series made from a single 2-d dataset are refused with IndexError.)',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'all interleavings of readers and iterators; all access orders; directory listing orders; short and failing reads at any read operation',
     'A shared file position or iterator is only observable when a second reader runs between a seek and a read; tests read sequentially from one thread on one file system.',
     ['hexrd/core/imageseries/load/rawimage.py', 'hexrd/core/imageseries/load/imagefiles.py', 'hexrd/core/imageseries/load/hdf5.py',
      'hexrd/core/imageseries/process.py', 'hexrd/core/imageseries/imageseriesiter.py', 'hexrd/core/imageseries/baseclass.py'],
     [('seek+read under a per-series lock', 'rawimage.py __getitem__'), ('file list sorted after glob', 'imagefiles.py _load_yml'),
      ('one index list per iterator', 'imageseriesiter.py'), ('operations applied to fresh arrays', 'process.py')],
     [('f', 'shared file position', 'rawimage.py')],
     ['series[i]', 'iter(series)', 'adapter.get_region'])

prop('C05', 'A failed image-series save is never silent and an interrupted one never lies',
     'If an image-series save (frame-cache npz or HDF5 style, HDF5 format) returns normally, the file is complete on disk and reads back equal to the '
     'source; if the disk fills up or an I/O error persists during the save, or a source frame cannot be read, the save raises '
     '(for HDF5 files, a momentary error that the HDF5 library swallows while closing an object is excepted). '
     'If the process is killed at any point of the save, opening and reading the file that is left either raises or returns exactly the frames that were being saved (or exactly those of the older file, if it had not been touched yet), never others. '
     'After a failed save the same save to the same place succeeds once the disk is healthy.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every file-system operation of a save as crash point (whole or torn) and as first failing operation (ENOSPC, EIO, persistent), and benign short writes',
     'No test makes a write fail or kills a save; each needs a fault at one particular write among tens.',
     ['hexrd/core/imageseries/save.py', 'hexrd/core/imageseries/load/framecache.py', 'hexrd/core/imageseries/load/hdf5.py'],
     [('file closed by context manager', 'save.py _write_frames_fch5'), ('zip CRCs and central directory written last', 'numpy savez via save.py'),
      ('version attribute and dataset lookups refuse incomplete files', 'framecache.py, hdf5.py')],
     [], ['imageseries.write', 'imageseries.open'])

prop('C06', 'An image series handed to another process or handle owner keeps its data',
     'Pickling any picklable image series (array, frame cache before or after its frames were loaded, HDF5, image files, and processed views of them) and '
     'unpickling it, in the same process or a worker, for any number of hops, gives a series with the same length, shape, dtype, metadata and frames. '
     'Closing, dropping or garbage-collecting one series never breaks another series over the same file; and a series opened on a '
     'caller-owned HDF5 handle with closing disabled leaves that handle open. (Series that share one caller-owned handle with closing enabled close it together.)',
     ['histories', 'schedules', 'inputs'],
     'all sequences of open, read, pickle/unpickle (to simulated worker processes), close, drop and collect over several series sharing files and handles',
     'Handle lifetime faults depend on the order of pickling, reading and collection; tests pickle once in one order.',
     ['hexrd/core/imageseries/load/hdf5.py', 'hexrd/core/imageseries/load/framecache.py', 'hexrd/core/imageseries/load/imagefiles.py',
      'hexrd/core/imageseries/baseclass.py', 'hexrd/core/imageseries/process.py'],
     [('handles dropped from pickles and reopened by name', 'hdf5.py __getstate__/__setstate__'), ('lock recreated after unpickling', 'framecache.py __setstate__'),
      ('close_when_finished', 'hdf5.py close')],
     [], ['pickle.dumps/loads', 'series[i]', 'h5py handle validity'])

prop('C07', 'Image-series statistics do not depend on memory, chunking or interleaving',
     'The maximum, minimum, sum, average, median and percentile of an image series are the same whether computed in one call or through the chunked '
     'iterator, for every chunk count, every amount of memory available for buffering, and every interleaving of several such iterators, including ones abandoned part-way. '
     'The k-th image an iterator yields is the aggregate of exactly the frames (or rows) covered so far, and images already yielded never change afterwards. '
     'A frame read error reaches the caller and a fresh computation afterwards is correct.',
     ['configurations', 'schedules', 'inputs', 'fault_sequences'],
     'all chunk counts, frame limits, buffer sizes (simulated free memory) and interleavings of iterators over shared series; a read failing at any frame',
     'Buffer size follows the memory free at import, so tests only ever see buffers larger than the data; stable yields need several images kept.',
     ['hexrd/core/imageseries/stats.py'],
     [('buffer sized from available memory, rest read from the series', 'stats.py _alloc_buffer/_toarray'), ('yield copies', 'stats.py sum_iter'),
      ('stop indices', 'stats.py _chunk_stops')],
     [('STATS_BUFFER', 'bytes usable for buffering', 'stats.py')], ['stats.*', 'stats.*_iter'])

prop('C08', 'Cached geometry and symmetry results equal uncached ones for every caller',
     'A function cached by the library returns, for every call from every thread in every history, a value equal to what the uncached function returns for those arguments, '
     'with arguments that differ in value, dtype, shape or keyword never confused. '
     'Calls never fail or hang because of caching, whatever other threads call at the same time; an exception from the computation reaches the caller and is not cached. '
     'Cached arrays cannot be changed through a returned result, and the cache never holds more entries than its maximum once calls have finished.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'all interleavings of calling threads at every step of the cache code; all call histories over more keys than the cache holds; computation raising at any call; cache size changed at any time',
     'Eviction between lookup and return needs a second thread at one point; tests call from a single thread with few keys.',
     ['hexrd/core/utils/decorators.py', 'hexrd/core/instrument/planar_detector.py', 'hexrd/core/instrument/cylindrical_detector.py',
      'hexrd/core/instrument/detector.py', 'hexrd/core/material/symmetry.py'],
     [('LRU with hashed array arguments', 'decorators.py memoize/_make_hashable'), ('outputs marked read-only', 'decorators.py memoize')],
     [('cache', 'OrderedDict key -> result', 'decorators.py')], ['decorated function results', 'detector.pixel_angles / pixel_eta_gradient', 'symmetry.quatOfLaueGroup'])

prop('C09', 'Azimuth-omega map extraction does not depend on worker threads',
     'Extracting eta-omega (polar) maps from rotation image series gives bit-identical maps for every number of worker threads and every interleaving of them, equal to the '
     'single-worker result, for serial and threaded execution alike, and leaves the images unchanged. '
     'Each frame contributes to its own omega row of every map, and an error while processing a frame reaches the caller.',
     ['schedules', 'configurations', 'inputs', 'fault_sequences'],
     'all interleavings of the extraction threads, all worker counts relative to frame count, several panels and hkl rings, any frame failing to read',
     'Tests run extraction once with the machine default number of workers, if example data is present at all.',
     ['hexrd/core/instrument/hedm_instrument.py', 'hexrd/core/utils/concurrent.py'],
     [('disjoint row ranges per worker', 'hedm_instrument.py extract_polar_maps, _run_histograms'), ('distribute_tasks', 'core/utils/concurrent.py')],
     [('ring_maps', 'shared output array', 'hedm_instrument.py')], ['HEDMInstrument.extract_polar_maps', 'EtaOmeMaps.dataStore'])

prop('C10', 'SNIP background is independent of the worker pool',
     'Computing a SNIP background for a set of spectra with any number of worker processes, and any order in which they finish, gives the '
     'same array as the single-process computation, row for row. '
     'A worker that raises or dies makes the call raise instead of returning a partial or misordered background.',
     ['schedules', 'configurations', 'inputs', 'fault_sequences'],
     'all worker counts, completion orders, chunkings and masked rows; a worker raising or being killed at any task',
     'Tests call it with one worker setting and no failures.',
     ['hexrd/core/imageutil.py'], [('rows split over a process pool, reassembled in order', 'imageutil.py snip1d'), ('distribute_tasks', 'core/utils/concurrent.py')],
     [], ['imageutil.snip1d', 'imageutil.run_snip1d'])

prop('C11', 'Line-position extraction is independent of its process pools',
     'Extracting powder line positions from an instrument gives the same panel, image, ring and patch results, in the same order, for every number of worker processes and '
     'every completion order of panels and rings, as a serial evaluation gives. '
     'A failing or dying worker makes the call raise rather than return partial data.',
     ['schedules', 'configurations', 'inputs', 'fault_sequences'],
     'all completion orders of the nested panel and ring pools; several panels, images and option combinations; a worker failing at any task',
     'Tests rarely reach the pools and never vary completion order or fail a worker.',
     ['hexrd/core/instrument/hedm_instrument.py'],
     [('process pools over panels and rings with ordered map', 'hedm_instrument.py extract_line_positions, _extract_detector_line_positions, _extract_ring_line_positions')],
     [], ['HEDMInstrument.extract_line_positions'])

prop('C12', 'Pinhole angle correction is independent of worker threads',
     'The pinhole-corrected two-theta grid computed for a detector is identical for every number of worker threads above one and every interleaving of them, agrees with the '
     'single-worker computation to rounding, preserves the input shape, and leaves NaN pixels NaN. '
     'A failing worker makes the call raise.',
     ['schedules', 'configurations', 'inputs'],
     'all interleavings of the correction threads, worker counts below and above the column count, NaN patterns and pinhole geometries',
     'Tests use one worker count and cannot control thread interleaving.',
     ['hexrd/hed/xrdutil/phutil.py', 'hexrd/core/utils/concurrent.py'],
     [('column ranges per task, keyword copy per task', 'phutil.py calc_tth_rygg_pinhole, _run_compute_qq_p')],
     [], ['phutil.calc_tth_rygg_pinhole'])

prop('C13', 'Orientation indexing scores are independent of process count and order',
     'Scoring a list of trial orientations against eta-omega maps returns one completeness per orientation, in input order, equal to scoring each orientation alone, for every number of '
     'processes (including more processes than orientations), every chunking and every completion order, serial or parallel. '
     'Runs do not affect one another, and a worker failure reaches the caller.',
     ['schedules', 'configurations', 'histories', 'inputs', 'fault_sequences'],
     'all worker counts, orientation counts, completion orders, and sequences of runs with different maps; a worker raising at any task',
     'Tests that reach this need the absent example data and would use one process count.',
     ['hexrd/hedm/indexer.py'], [('pool initializer broadcasts parameters', 'indexer.py paintGrid, paintgrid_init'), ('ordered pool.map', 'indexer.py paintGrid')],
     [('paramMP', 'per-process parameters', 'indexer.py')], ['indexer.paintGrid'])

prop('C14', 'Seed-orientation generation is independent of process count and order',
     'The set of trial orientations generated from eta-omega maps is identical, element for element, for every number of worker processes, chunking and completion order, '
     'and equal to the serial result. '
     'Consecutive runs with different inputs do not affect one another, and a worker failure reaches the caller.',
     ['schedules', 'configurations', 'histories', 'inputs', 'fault_sequences'],
     'all worker counts, completion orders and run sequences; a worker raising at any fibre',
     'Tests that reach this need the absent example data and would use one process count.',
     ['hexrd/hedm/findorientations.py'], [('pool over spot fibres', 'findorientations.py generate_orientation_fibers, discretefiber_init')],
     [('paramMP', 'per-process parameters', 'findorientations.py')], ['findorientations.generate_orientation_fibers'])

prop('C15', 'Grain fitting gives the same results for any processes, order or mode',
     'Fitting grains returns one result per requested grain, in request order, with values equal to fitting that grain alone in a '
     'single process, for every process count, completion order, serial, parallel or cancellable mode, and for any subset or order of grain ids. '
     'Spot files and returned spot data belong to the grain they are named after, and a reflection listed in an overlap table for one grain is culled for that grain only.',
     ['schedules', 'configurations', 'inputs', 'histories'],
     'all process counts, completion orders, grain tables and subsets, cancellation callbacks that never fire, with and without overlap tables, sequences of runs',
     'The fit needs example data absent from the tests, and tests use one process count and the whole table.',
     ['hexrd/hedm/fitgrains.py', 'hexrd/hedm/fitting/grains.py', 'hexrd/core/instrument/hedm_instrument.py'],
     [('ordered map_async over grain ids', 'fitgrains.py fit_grains'), ('parameters broadcast as process globals', 'fitgrains.py fit_grain_FF_init'),
      ('serial path shares the worker function', 'fitgrains.py')],
     [('paramMP', 'per-process parameters', 'fitgrains.py')], ['fitgrains.fit_grains', 'spots_*.out files'])

prop('C16', 'Cancelled or failed grain fits end promptly, cleanly and visibly',
     'When the cancellation callback of a grain fit returns true, the fit returns no results within one polling interval, whatever its workers are doing; when a worker raises, '
     'the fit raises that error. '
     'In every case (success, cancel, failure) all worker processes are gone when the call returns, and the next fit in the same process gives correct results.',
     ['schedules', 'fault_sequences', 'histories'],
     'cancellation at any poll, worker exceptions at any grain, callback exceptions, arbitrary task durations, followed by further fits',
     'Timing of cancel against worker progress cannot be chosen by a test; leaks show only in the following run.',
     ['hexrd/hedm/fitgrains.py'], [('poll loop with bounded wait', 'fitgrains.py fit_grains'), ('terminate and join in finally', 'fitgrains.py fit_grains')],
     [('pool', 'worker processes', 'fitgrains.py')], ['fitgrains.fit_grains return/raise', 'live worker processes'])

prop('C17', 'Near-field confidence maps are independent of how the work is split',
     'Testing orientations on a near-field grid gives the same confidence matrix for every process count, chunk size, start method (fork or spawn), completion order and coordinate limit, and for every '
     'number of MPI ranks once gathered on rank 0, equal to the serial single-rank result. '
     'Every coordinate is computed exactly once and reported progress ends at the number of coordinates of the rank.',
     ['schedules', 'configurations', 'inputs'],
     'all process counts, chunk sizes, rank counts, completion orders, start methods and coordinate limits, including sizes that do not divide evenly',
     'Tests need absent example data and MPI is not installed; splitting errors appear only for particular size/rank/chunk combinations.',
     ['hexrd/hedm/grainmap/nfutil.py'], [('offset/size split by rank', 'nfutil.py get_offset_size'), ('slices returned with values', 'nfutil.py _grand_loop_inner, test_orientations'),
      ('gather on rank 0', 'nfutil.py gather_confidence')],
     [('_mp_state', 'state inherited or loaded by workers', 'nfutil.py')], ['nfutil.test_orientations', 'controller.handle_result', 'controller.update'])

prop('C18', 'Near-field runs clean up after themselves, even on failure',
     'When near-field orientation testing ends, normally or because a worker, a progress callback or the disk failed, the failure reaches the caller, the temporary directory it created is gone, its '
     'worker processes are gone, and a later run in the same process gives correct results.',
     ['fault_sequences', 'histories', 'schedules'],
     'a failure at any chunk, any progress callback or while dumping state, under fork and spawn, followed by further runs with other data',
     'Cleanup on failure paths is only visible when something fails at the right moment; tests inject no failures.',
     ['hexrd/hedm/grainmap/nfutil.py'], [('context manager around the pool', 'nfutil.py grand_loop_pool'), ('temporary directory removed in finally', 'nfutil.py grand_loop_pool')],
     [('_mp_state', 'inherited state', 'nfutil.py')], ['temporary directory listing', 'live worker processes', 'nfutil.test_orientations'])

prop('C19', 'Saved orientation-search results are read back whole or refused',
     'Eta-omega maps and scored orientations saved to disk read back equal to what was saved; a save that hits a full disk or an I/O error raises. '
     'If the process is killed during the save, loading the file that is left either raises or returns exactly the saved data. '
     'A read error while loading raises and a later load succeeds.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every file-system operation of the save as crash point or failing operation, overwriting an older file or not; read failures at any operation of the load',
     'No test fails or interrupts a save.',
     ['hexrd/hedm/xrdutil/utils.py', 'hexrd/hedm/findorientations.py'],
     [('compressed zip archive with CRCs', 'xrdutil/utils.py EtaOmeMaps.save_eta_ome_maps, findorientations.py write_scored_orientations')],
     [], ['EtaOmeMaps(filename)', 'np.load of scored orientations'])

prop('C20', 'Grain and spot output files are complete or the failure is reported',
     'Every grain, spot and HDF5 grain row given to an output writer that was closed without error is in its file once, in order and with its values; writers used '
     'at the same time do not mix rows. '
     'If writing fails because the disk is full or an I/O error occurs, some call (write or close) raises; if the process is killed, the rows present form a prefix of those written.',
     ['crash_points', 'fault_sequences', 'histories'],
     'all interleavings of several writers, failing or short writes at any operation, kill at any operation, closing twice or by garbage collection',
     'No test fails a write or kills a writer.',
     ['hexrd/core/instrument/hedm_instrument.py'], [('line writers with explicit close', 'hedm_instrument.py PatchDataWriter, GrainDataWriter'), ('HDF5 writer', 'hedm_instrument.py GrainDataWriter_h5')],
     [('fid', 'open output file', 'hedm_instrument.py')], ['writer.dump_*', 'writer.close', 'file contents'])

prop('C21', 'Instrument configurations survive saving and report failed saves',
     'Writing an instrument configuration to YAML or HDF5 (to a path or an open HDF5 file) and loading it gives an instrument with the same detectors, beams, orientation, distortion and buffers; repeated write/load cycles change nothing. '
     'A write that meets a full disk or an I/O error raises, leaving the in-memory instrument unchanged, and writing again once the disk is healthy succeeds.',
     ['fault_sequences', 'histories', 'inputs'],
     'all write/load histories over instruments with one or several detectors and beams; first failing operation anywhere in the write',
     'Tests write once to a healthy disk; swallowed errors need a failing operation.',
     ['hexrd/core/instrument/hedm_instrument.py', 'hexrd/core/instrument/detector.py', 'hexrd/core/utils/hdf5.py', 'hexrd/core/config/instrument.py'],
     [('config dict written in one go', 'hedm_instrument.py write_config'), ('unwrap_dict_to_h5', 'core/utils/hdf5.py')],
     [], ['HEDMInstrument.write_config', 'HEDMInstrument(instrument_config=...)'])

prop('C22', 'Updating a materials file keeps every material and reports failure',
     'After any sequence of saving materials into a materials file (adding or overwriting), every material saved reads back with its latest values and the others are untouched. '
     'If one save raises (bad value, full disk, I/O error) the caller sees it, the file is not left open, and materials in the file that were not being written still read back unchanged when the failure was in the data rather than the disk.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of save/overwrite/load over several materials and paths, with a save failing at any field or any disk operation',
     'Tests save to a fresh file once and never fail a save.',
     ['hexrd/core/material/material.py', 'hexrd/core/material/mksupport.py'],
     [('group replaced then rewritten', 'mksupport.py WriteH5Data'), ('file closed after writing', 'mksupport.py Write2H5File')],
     [], ['Material.dump_material', 'material.load_materials_hdf5'])

prop('C23', 'Temporary settings are always restored, even when the work fails',
     'Work done under a temporary setting (a switched active x-ray beam with the beam vectors and source distances of its detectors, a numba thread limit, standard output redirected to a log, suppressed warnings, the temporary eta vector of a detector) leaves that setting as it found it, '
     'whether the work succeeds, raises at any point, or is nested inside other such work.',
     ['fault_sequences', 'histories', 'schedules'],
     'an exception raised at any instruction of the protected work, nesting to any depth, and generator-style contexts abandoned part-way',
     'Tests leave these blocks normally; restoration on failure needs an exception at the right place.',
     ['hexrd/core/instrument/hedm_instrument.py', 'hexrd/core/utils/decorators.py', 'hexrd/core/utils/logger.py'],
     [('context managers with try/finally', 'hedm_instrument.py switch_xray_source; decorators.py limit_numba_threads; utils redirect_stdout_to_logger')],
     [], ['instrument.active_beam_name', 'numba.get_num_threads', 'sys.stdout', 'warnings.filters', 'panel.bvec, xrs_dist, evec'])

prop('C24', 'The generic parallel map returns ordered results or fails, never hangs',
     'Applying a function over a list with the generic multiprocessing helper returns one result per item, in item order, for every number of processors, item count and completion order. '
     'If the function raises for an item, or a worker dies, the call raises within bounded time instead of waiting for ever, and no worker process is left.',
     ['schedules', 'configurations', 'fault_sequences'],
     'all processor counts, item counts (including none), completion orders; a worker raising or dying at any item',
     'Untested: needs a failing worker and a time bound.',
     ['hexrd/core/utils/multiprocess_generic.py'], [('input/output queues with positions', 'multiprocess_generic.py parallelise_function')],
     [], ['GenericMultiprocessing.parallelise_function'])

prop('C25', 'Data-parallel pattern kernels give the same answer for every iteration order',
     'The kernels that compute powder-diffraction patterns, observed intensities, structure factors and corrections over reflections, and the sampling of orientations in a fundamental zone, give the same result for every '
     'number of threads and every order or splitting of their parallel iterations, as for each reflection alone, and read and write nothing outside their arguments.',
     ['schedules', 'inputs'],
     'all orders and interleavings of the parallel iterations, all thread counts, inputs of every length including fewer items than threads',
     'The runtime picks the split; a carried dependency between iterations shows only for particular splits and inputs.',
     ['hexrd/powder/wppf/xtal.py', 'hexrd/powder/wppf/peakfunctions.py', 'hexrd/hedm/sampleOrientations/sampleRFZ.py'],
     [('iterations write only their own slots', 'xtal.py, peakfunctions.py, sampleRFZ.py prange loops')],
     [], ['kernel return values'])

prop('C26', 'Former module names give the present modules in every import history',
     'Importing a module, package, submodule or name by its former path (any import form, attribute access or unpickling) gives the same module object, classes and functions as its present path, in every order of imports, '
     'and no source file is executed under two names. If reading a module file fails once, the import raises or is complete, and later imports are right.',
     ['histories', 'faults'],
     'all orders and forms of importing former and present names, failures of reading any module file',
     'The import hook merges, extends and aliases modules as they are first used, so what a name gives can depend on what was imported before; each test process imports in one order.',
     ['hexrd/module_map.py', 'hexrd/__init__.py', 'hexrd/file_table.tsv'],
     [('meta-path alias importer and name merging', 'module_map.py ModuleAliasImporter.load_module'), ('aliases of material modules', 'hexrd/__init__.py')],
     [], ['sys.modules identity', 'module namespaces'])

prop('C27', 'An orientation search does not depend on processes or map history',
     'The trial orientations, scores and grains found by find_orientations (map-based search) are the same, for the same data, settings and random numbers, for every number of processes and threads and every completion order, '
     'and whether its eta-omega maps were recomputed on request (clean), computed because no saved maps could be read, or loaded from those saved by an earlier search with the same settings. '
     'A failing worker or a failed save of the maps reaches the caller; after a search was killed, the next one raises or finds the same, and a clean one always finds the same.',
     ['histories', 'schedules', 'crash_points', 'fault_sequences'],
     'all histories of searches, with the maps file kept, deleted, torn, or left by a killed or failing search, for all process counts, hkl choices, filters, search and clustering methods',
     'A test runs one search from one state of the maps file; only a history of searches shows that the next one depends on what the earlier ones left behind.',
     ['hexrd/hedm/findorientations.py', 'hexrd/hedm/xrdutil/utils.py', 'hexrd/hedm/instrument/generate_eta_omega_maps.py', 'hexrd/hedm/indexer.py'],
     [('maps are computed or loaded, then filtered', 'findorientations.py load_eta_ome_maps'), ('stages of the search', 'findorientations.py find_orientations')],
     [('eta-ome-maps npz archive', 'file', 'xrdutil/utils.py EtaOmeMaps')], ['find_orientations', 'EtaOmeMaps'])

# ---- not applicable (pure functions of their arguments) ----
NA = {}


def na(id, title, statement, qtext, why, files, mech, reason):
    prop(id, title, statement, ['inputs'], qtext, why, files, mech)
    NA[id] = reason


na('N01', 'Orientation conversions round-trip',
   'Converting an orientation between exponential map, quaternion, rotation matrix and Euler angles and back gives the same rotation, for every orientation including those at and near singularities.',
   'all orientations, including identity, half turns and convention-specific singularities', 'Tests sample a few angles.',
   ['hexrd/core/rotations.py'], [('conversion formulas', 'rotations.py')],
   'Pure functions of their arguments: no schedule, clock, I/O, fault or history for a simulator to control.')
na('N02', 'Diffraction angle and detector coordinate transforms are mutually inverse',
   'Mapping diffraction vectors to angles, angles to detector positions and positions back to angles and vectors returns the starting values wherever the reflection reaches the detector.',
   'all panel geometries, sample and crystal frames, beams and reflections', 'Tests sample a few geometries.',
   ['hexrd/core/transforms/xfcapi.py', 'hexrd/core/transforms/new_capi'], [('C/C++ and numpy transforms', 'transforms/*')],
   'Pure numerical functions; the deciding step would be input generation, not simulation.')
na('N03', 'Space-group symmetry and reflection lists agree with crystallography',
   'Symmetry operators form a group, equivalent reflections have equal spacing and structure factor magnitude, and systematic absences match the space group, for all 230 groups and settings.',
   'all space groups, settings, lattice parameters and reflections', 'Tests sample some groups.',
   ['hexrd/core/material/spacegroup.py', 'hexrd/core/material/unitcell.py', 'hexrd/core/material/crystallography.py'], [('generator strings', 'spacegroup/unitcell')],
   'Pure functions of the material description.')
na('N04', 'Peak profiles are consistent with their derivatives and normalisation',
   'Analytic derivatives of peak and background functions equal the derivative of the function, and unit profiles integrate to one, for all parameters in range.',
   'all parameter values', 'Tests sample few values.', ['hexrd/core/fitting/peakfunctions.py', 'hexrd/powder/wppf/peakfunctions.py'], [('closed forms', 'peakfunctions.py')],
   'Pure numerical functions.')
na('N05', 'Values with units convert consistently',
   'Converting a value between units of its kind and back preserves it, and conversions between kinds are refused except between energy and wavelength.',
   'all units and values', 'Tests sample few units.', ['hexrd/core/valunits.py'], [('unit tables', 'valunits.py')],
   'Pure functions.')
na('N06', 'Least-squares refinement never reports a worse fit than its start',
   'A refinement of grains, powder patterns or calibration parameters returns parameters with a residual not larger than that of the starting parameters and respects bounds and fixed flags.',
   'all data sets and starting points', 'Tests refine a few patterns.', ['hexrd/hedm/fitting/grains.py', 'hexrd/powder/wppf/WPPF.py', 'hexrd/core/fitting/calibration'], [('lmfit/scipy minimisers', 'fitting')],
   'Deterministic numerical optimisation of a pure objective; nothing for a scheduler or fault injector to decide.')
na('N08', 'Orientation distribution functions are normalised and invariant under symmetry',
   'Pole figures and inverse pole figures computed from a texture model are non-negative where required, normalised, and invariant under crystal and sample symmetry.',
   'all harmonic orders, symmetries and coefficients', 'Tests sample few models.', ['hexrd/powder/wppf/texture.py', 'hexrd/phase_transition/texture'], [('harmonic expansions', 'texture.py')],
   'Pure numerical functions.')
na('N09', 'Detector distortion corrections invert',
   'Applying a distortion and then its inverse returns the original detector coordinates over the whole active area, for every distortion model.',
   'all distortion models, parameters and coordinates', 'Tests sample few points.', ['hexrd/core/distortion'], [('apply/apply_inverse', 'distortion/*.py')],
   'Pure numerical functions.')

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')

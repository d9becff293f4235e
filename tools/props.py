"""the property list: writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


ONE = 'The stable tests push one recorded pixel through detection; '
C, I, U, M, O, S, KF = ('src/cxx/cold.c', 'src/cxx/input.c', 'src/cxx/utilities.c', 'src/cxx/misc.c', 'src/cxx/output.c', 'src/cxx/s_ccd.c', 'src/cxx/KFAS.c')
D2 = 'src/cxx/2d_array.c'
PY = 'src/python/pycold/'

p('C01', 'Invalid observations are screened out by the documented ranges',
  'An observation takes part in change detection only if its QA value is not fill and every band lies in the documented valid range; QA values 0-4 count as clear, water, shadow, snow and cloud and 255 as fill, and the reported class counts are those counts. '
  'A QA value outside that set, or dates out of order, make the call fail without a record instead of being guessed.',
  'inputs', 'every series of dates, seven bands and QA values, both thermal encodings, up to the length bound',
  ONE + 'range edges, fill, missing thermal and unknown QA codes do not occur together in it.',
  [I, C], [('preprocessing', I), ('cold', C)])
p('C02', 'A pixel with too few clear observations yields correct fallback records',
  'When a pixel has too few clear observations for change monitoring (fewer than 24), the returned records describe only observations of that pixel: every model is fitted to (date, reflectance) pairs that occurred together in one usable observation of the right band, dates are in time order inside the observed range, and the record carries the fit category, a zero break and zero change probability. '
  'With nothing to fit, no record is returned and nothing outside the output array is touched.',
  'inputs', 'every series up to the length bound, any QA mix, any band values',
  ONE + 'it has plenty of clear observations, so the fallback for permanent snow or too few clear dates is never run.',
  [C], [('inefficientobs_procedure', C)])
p('C03', 'Segments returned by change detection are well-formed and in time order',
  'The records returned for a pixel are in time order and do not overlap: each has start <= end <= break (when there is a break), starts after the previous one ends, lies inside the observed dates, carries the requested position, a category of the documented set, a change probability between 0 and 100, and an observation count that is positive and not larger than the number of usable dates it spans. '
  'Only the last record may have no confirmed break.',
  'inputs', 'every series up to the length bound, every conse, probability threshold and position',
  ONE + 'other break patterns, ties and boundary lengths are not sampled.',
  [C], [('stand_procedure', C), ('cold', C)])
p('C04', 'Change-magnitude layers stay inside their arrays and carry the right dates',
  'With change-map output on, every written layer entry lies inside the arrays the caller passed, each written date is the date of an observation of the interval it is stored under, and the stored magnitude is the smallest deviation of the consecutive observations times 100 (at most 32767); layers without an observation keep the fill value.',
  'inputs configurations', 'every series up to the bound, every starting date, interval length and layer count accepted',
  'No stable test turns change-map output on.', [C], [('stand_procedure', C)])
p('C05', 'More breaks than the record capacity never corrupt memory',
  'However many breaks a series contains, detection never writes more segment records than the result array holds; it never reallocates or frees memory owned by the caller.',
  'inputs', 'every series whose break count reaches the capacity',
  'The sampled pixel has a handful of breaks; the capacity is 40.', [C, S], [('NUM_FC', 'src/cxx/const.h')])
p('C06', 'Reconstruction follows the given break dates',
  'Refitting with given break dates returns consecutive segments whose boundaries are the usable observations nearest those dates, each model fitted only to usable observations of its segment and counting them; dates may come in any order, zero entries and dates less than a year after the previous one are ignored, and a segment too short for a model is joined to the next. A pixel below the monitoring threshold gets the same record as detection gives it.',
  'inputs', 'every series and every break list up to the length bound',
  'One reconstruct test with one pixel and one break list.', [C], [('obcold_reconstruction_procedure', C), ('find_index_clrx', M)])
p('C07', 'Model size follows the number of clear observations',
  'The number of coefficients used for a segment is 4 below 18 clear observations, 6 below 24 and 8 from 24 on, never more than the allowed maximum.',
  'inputs', 'every 32-bit observation count and cap', ONE + 'tier boundaries are not hit exactly.', [M], [('update_cft', M)])
p('C08', 'Temporal variogram is the median of successive differences',
  'The temporal variogram of a band over any window is the median absolute difference of successive observations, for every band, and the revisit interval is the median (and maximum) difference of successive dates; windows of fewer than two observations still set every band.',
  'inputs', 'every window of every series up to the length bound', ONE + 'window starts other than 0 and tiny windows are not reached.',
  [M], [('adjust_median_variogram', M), ('singleband_variogram', M)])
p('C09', 'Sorting orders the window and keeps companion data attached',
  'Every sort used on observations returns the requested window in ascending order as a permutation of its input, moves QA, sensor, band and index data together with their key, leaves elements outside the window alone and terminates, equal keys included.',
  'inputs', 'every array and window up to the length bound', 'Test data arrives already sorted and without repeated keys.',
  [U], [('quick_sort_*', U), ('partition_*', U)])
p('C10', 'Repeated acquisition dates collapse to one observation',
  'After collapsing repeated dates every date occurs exactly once, in order, and every band keeps the value of the first observation of that date.',
  'inputs', 'every sorted date list up to the length bound, all bands', 'The sampled pixel has no repeated date.', [M], [('matlab_unique', M)])
p('C11', 'Summary statistics are those of the requested window',
  'Median, mean, mean square, norm, RMSE, flag count and maximum helpers return the mathematical value over exactly the requested inclusive window and nothing else.',
  'inputs', 'every row and window up to the length bound', ONE + 'even/odd lengths and inner windows are not separated.',
  [M, U], [('matlab_2d_float_median and relatives', M), ('get_ids_length', U)])
p('C12', 'Calendar conversions agree with the Gregorian calendar',
  'Converting (year, day of year) to an ordinal day and back is exact for every date from 1973 on, day-of-year of a calendar date follows the leap-year rule, and dates before 1973 are rejected.',
  'inputs', 'every date from 1973 to the year bound', 'A few dates at most are converted by the tests.',
  [I, U], [('convert_year_doy_to_ordinal', I), ('convert_jday_to_year_doy_from_0001', U), ('yearmonth2doy', U)])
p('C13', 'Model prediction is the harmonic series of the stored coefficients',
  'The prediction of a fitted model at a date is intercept + slope*date plus the first, second and third annual harmonics, using exactly as many terms as the model has coefficients, identically in every prediction routine.',
  'inputs', 'every coefficient vector, date window and model size', ONE + 'each term is never isolated.', [M], [('auto_ts_predict', M), ('auto_ts_predict_float', M)])
p('C14', 'Regression is given the pixel and its result stored in the right slots',
  'Fitting a band over a window passes exactly the observations of that window with their harmonic design matrix to the regression, stores the intercept and coefficients in model order, zero where the model has no term, and reports residuals observed-minus-predicted and the RMSE with the degrees of freedom of the model size.',
  'inputs', 'every window, model size and band up to the length bound', ONE + 'a mismatch of a column or slot changes fit quality, not the outcome of the one test.',
  [M], [('auto_ts_fit', M), ('auto_ts_fit_float', M), ('c_glmnet', M)])
p('C15', 'Change-vector angles are real angles',
  'The angle measures used to accept a break are between 0 and 180 degrees (never NaN) for every set of non-zero change vectors, 0 for parallel vectors, and do not depend on vectors outside the requested window.',
  'inputs', 'every set of difference vectors up to the bound', 'The sampled vectors are never exactly parallel.', [M], [('MeanAngl', M), ('MediumAngl', M), ('angl_scatter_measure', M)])
p('C16', 'Nearest-observation lookup and angle decay are exact',
  'The position found for a date is that of the nearest observation (the earlier on ties), always inside the series; the angle decay is 1 below, 0 above and falls monotonically in between.',
  'inputs', 'every sorted series and date', 'Only break dates that are observations are sampled.', [M], [('find_index_clrx', M), ('angle_decaying', M)])
p('C17', 'Cloud/shadow screening flags exactly the outlying observations',
  'During model initialisation an observation is flagged exactly when its green or its first short-wave infrared residual from the robust fit of that band exceeds the given multiple of that band\'s variability, in either direction, per observation of the window and independently of observations outside it.',
  'inputs', 'every window up to the bound', ONE + 'flags are not observed.', [M], [('auto_mask', M)])
p('C18', 'Two-dimensional arrays never overlap or leak into row pointers',
  'Every cell of a two-dimensional work array is inside its allocation, distinct cells never share storage, and the array can be released.',
  'inputs', 'every shape and element size up to the bound', 'Sizes are those of one pixel.', [D2], [('allocate_2d_array', D2)])
p('C19', 'State-space filter setup reproduces the fitted model',
  'Converting harmonic coefficients to filter state at a date and back returns the same coefficients, one filter prediction step equals the harmonic model, and one update moves the state by gain times innovation and never leaves a negative variance.',
  'inputs', 'every coefficient vector and date of the domain', 'The tests that reach the filter are skipped.', [KF, S], [('instantiate_ssmodel', KF), ('KF_ts_filter_regular', KF)])
p('C20', 'Near-real-time state carries the pixel from one call to the next',
  'After every detect or update call the returned mode is one of the documented codes and says truthfully where the pixel state is. Monitored: the model keeps exactly the last consecutive observations (unused slots empty), with coefficients, covariance, variance, residual sum and observation count of its own segment and bands, standing at the first kept observation, and the deviation of the newest observations. '
  'Queue: every usable observation since the last break, in order, newest included, up to the capacity. Snow pixels likewise. A queue whose last model was not confirmed predictable is marked as such (its own mode). A break found in an update of a monitored pixel is announced by mode 5, which lasts until the observations still to be confirmed start 15 days after the break. Observations flagged as outliers are not fed to the filter, and the minimum RMSE set up with the first model is kept. A call without usable observations changes nothing, and a conse the model has no slots for is refused.',
  'inputs histories', 'every series and every division into calls up to the bound', 'All S-CCD tests are skipped in the stable set; one update of one pixel could not cover the histories anyway.', [S, PY + '_colds_cython.pyx'], [('sccd', S), ('sccd_standard', S), ('sccd_snow', S), ('step3_processing_end', S)])
p('C21', 'A break is confirmed by consecutive deviating observations only',
  'A break is confirmed, with probability 100, exactly when the configured number of consecutive usable observations deviates from the current model; a series that changes for good gets its one break at the first changed usable observation, with the change as its magnitude; an unchanged series gets none; a change near the start of the series is recorded there; fewer deviating observations at the end of the series are reported with the proportional probability.',
  'inputs', 'every position and size of the change, observation quality and gaps up to the length bound',
  'The sampled pixel fixes one place, one size and one number of consecutive observations.', [C], [('stand_procedure', C)])
p('C22', 'Python record layouts match the native records byte for byte',
  'Every structured dtype Python uses to read native results has the same fields, offsets, widths and total size as the native record it is laid over.',
  'configurations', 'every field of every record type', 'A wrong offset shows as plausible numbers in fields the tests do not compare.',
  [PY + 'common.py', O.replace('.c', '.h'), 'src/cxx/s_ccd.h'], [('reccg_dt and relatives', PY + 'common.py'), ('Output_t', O.replace('.c', '.h'))])
p('C23', 'First degradation year comes from the earliest qualifying break',
  'The reported first degradation year is the year of the earliest break whose change magnitude has the requested direction, and 0 if there is none.',
  'inputs', 'every list of segments up to the bound', 'Not exercised by any test.', [M], [('firstDegradationYear', M)])

p('C24', 'Updating a pixel step by step gives what detecting from scratch gives',
  'Feeding a series to S-CCD in any division into consecutive calls ends with the same breaks, segments, coefficients, model and observation queue as one call with the whole series; at most the announcement of a break (mode 5) delays the next model by one call.',
  'histories', 'every division of the series into calls up to the bound', 'No stable test updates a state.', [S], [('sccd', S), ('sccd_standard', S), ('step2_KF_ChangeDetection', S), ('step3_processing_end', S)])
p('C25', 'S-CCD segments are well-formed and breaks follow lasting changes',
  'S-CCD records are in time order without overlap, start and break at usable observations, and carry the observation count, coefficients, rmse of their own segment, the same for every band; the magnitude is the median of the deviations of the observations that confirm the break, which all deviate from the model in one direction. '
  'A series that changes for good gets its one break at the first changed observation once enough consecutive observations confirm it, and a stable series gets none. No record is ever written outside the result array.',
  'inputs', 'every position and size of changes, observation quality, screening and gaps up to the bound', 'All S-CCD tests are skipped in the stable set.', [S], [('sccd_standard', S), ('step1_cold_initialize', S), ('step2_KF_ChangeDetection', S)])
p('C26', 'Pinpoint snapshots hold the observations and model of their break',
  'Every pinpoint record holds, from the first deviating observation on, the dates and readings of observations of the series (empty where the series ends), the coefficients of the model they deviate from, and for each number of consecutive observations the smallest deviation of those; the first three deviate, and of each year only the strongest run is kept. Nothing outside the series is read and nothing outside the result array is written.',
  'inputs', 'every position and size of changes up to the bound', 'No stable test requests pinpoint output.', [S], [('step2_KF_ChangeDetection', S), ('Output_sccd_pinpoint', O)])

p('P01', 'Invalid detector parameters and series are rejected, valid ones passed on',
  'Every public detection entry point accepts exactly the documented parameter ranges and types and raises before any computation otherwise; it rejects series that are not one-dimensional or not of one length, and change-magnitude layers that would not cover every date of the series; what it accepts reaches the detector unchanged: every series and option in its own place.',
  'inputs', 'every value of every validated parameter, every series of the bounded length', 'A few invalid values at most are tried.', [PY + 'colds.py', PY + '_param_validation.py'], [('_validate_params', PY + 'colds.py'), ('_validate_data', PY + 'colds.py'), ('cold_detect', PY + 'colds.py')])
p('P02', 'Block, pixel and row/column numbering are consistent bijections',
  'Block ids, pixel positions and row/column indices convert into each other without loss: every pixel of a tile belongs to exactly one block and one place inside it, and converting forth and back returns the same pixel.',
  'inputs configurations', 'every tile and block shape', 'Conversions are tried on one shape at most.', [PY + 'utils.py'], [('get_block_x/get_block_y/get_rowcol_intile/get_id_inblock/get_col_index/get_row_index', PY + 'utils.py')])
p('P03', 'Parallel workers together process every block exactly once',
  'For every number of workers the tile workflow comes to an end, and the workers together read and detect every block exactly once, analyse every date, classify every block (with a seed map), assemble the change maps, reconstruct and save every block exactly once, and mark every block as finished.',
  'configurations schedules', 'every worker count and block layout up to the bound', 'Not imported by any test; a schedule needs many workers.', [PY + 'imagetool/tile_processing.py'], [('main', PY + 'imagetool/tile_processing.py')])
p('P04', 'Assembling change maps puts every pixel at its place',
  'The assembled change-map rasters contain, for each date and each pixel of the tile, exactly the value its block produced, for every tile and block shape, and pixels of missing blocks hold the fill value.',
  'inputs configurations', 'every block layout up to the bound', 'Never run by a test.', [PY + 'utils.py'], [('assemble_cmmaps', PY + 'utils.py')])
p('P05', 'Assembling per-block arrays restores the tile',
  'Stitching the per-block arrays back yields the tile in which every pixel sits where its block and in-block position put it, for every layout.',
  'inputs configurations', 'every block layout up to the bound', 'One layout only.', [PY + 'utils.py'], [('assemble_array', PY + 'utils.py')])
p('P06', 'QA bit decoding follows the documented priority',
  'Decoding a packed QA value yields fill, cloud, shadow, snow, water or clear by the documented bits and priority for each sensor collection, for every 16-bit value.',
  'inputs', 'every 16-bit packed value', 'Not imported by any test.', [PY + 'imagetool/prepare_ard.py'], [('qabitval_array and relatives', PY + 'imagetool/prepare_ard.py')])
p('P07', 'Extracted features come from the segment covering the date',
  'For each requested date and band, extracted features are the coefficients of the segment that covers the date, on the documented scale, and the no-data value when no segment covers it.',
  'inputs', 'every ordered list of segments and date up to the bound', 'One pixel.', [PY + 'pyclassifier.py', PY + 'imagetool/export_change_map.py'], [('extract_features', PY + 'pyclassifier.py')])
p('P08', 'Block features are stored at the pixel they belong to',
  'Feature rows produced for a block hold, at each pixel position and year, the features of the records of that pixel, whatever order records come in; pixels without records hold no-data and classify to the fill class.',
  'inputs', 'every record list up to the bound', 'One block with one record layout.', [PY + 'pyclassifier.py'], [('predict_features', PY + 'pyclassifier.py'), ('classification_block', PY + 'pyclassifier.py')])
p('P09', 'Object change decision follows its rules',
  'A segmented object is declared changed exactly by the documented tests on its statistics, for every combination of parameters.',
  'inputs', 'every statistics tuple', 'Four parameter tuples at most.', [PY + 'ob_analyst.py'], [('is_change_object', PY + 'ob_analyst.py')])
p('P10', 'Training sample numbers stay inside their limits',
  'The number of training samples per class never exceeds what the class has, is never negative, respects the configured minimum and maximum, and ignores unlabelled pixels.',
  'inputs', 'every class histogram up to the bound', 'One label map.', [PY + 'pyclassifier.py'], [('generate_sample_num', PY + 'pyclassifier.py')])
p('P11', 'Object-analysis results survive the save and reload round trip',
  'Break dates saved per block and year are read back for the same pixels, in date order, with nothing lost, duplicated or moved between blocks.',
  'inputs histories', 'every small block layout and result', 'One saved map.', [PY + 'ob_analyst.py'], [('save_obiaresult', PY + 'ob_analyst.py'), ('get_allobiaresult_asarray', PY + 'ob_analyst.py')])
p('P12', 'Stack readers keep dates, bands and QA of one image together',
  'Reading the stack of a block returns the images of every supported sensor in date order and, where a date range is requested, exactly those inside it, each with its own date, bands and QA for every pixel; a block without such an image is reported as empty.',
  'inputs', 'every set of files up to the bound', 'Never run by a test.', [PY + 'imagetool/tile_processing.py'], [('get_stack_date', PY + 'imagetool/tile_processing.py')])
p('P13', 'Exported disturbance category follows the break model',
  'The exported type of a break is regrowth when near-infrared rises while red and short-wave infrared fall by the threshold of the method, afforestation when in addition the slopes of the following record of the same pixel strengthen the same way (COLD, OBCOLD), land disturbance otherwise, and 4 when an OBCOLD disturbance reverses one of the last five years; it never depends on a record of another pixel.',
  'inputs', 'every record pair', 'Never run by a test.', [PY + 'imagetool/export_change_map.py'], [('getcategory_cold', PY + 'imagetool/export_change_map.py')])
p('P14', 'Near-real-time break identification uses the newest anomalies',
  'For the state of a pixel kept with the default of six consecutive observations, identification reports a disturbance exactly when the state holds a monitored model without snow (modes 1 and 5), at least the asked number of newest observations are anomalous, the change magnitude exceeds its threshold, the spectral angle is below its threshold and the medians of the anomalies are not those of regrowth (red and short-wave infrared below minus the band threshold with near infrared above it); the date is that of the first anomalous observation and 0 otherwise. Only the mode of a monitored pixel is changed, to its "disturbed" variant, and only when asked for.',
  'inputs', 'every anomaly buffer, model and threshold', 'The near-real-time tests are skipped.', [PY + 'colds.py', PY + 'utils.py'], [('sccd_identify', PY + 'colds.py'), ('calculate_sccd_cm', PY + 'utils.py')])
p('P15', 'Packing and unpacking an S-CCD state loses nothing',
  'A near-real-time result packed to plain lists and read back, by the library or by the map export, is the same result: position, mode, minimum RMSE and every field of every closed record, of the model and of every queued observation, for every state mode and also when there are no records; a list of another length is rejected.',
  'inputs histories', 'every mode and content up to the bound', 'Skipped.', [PY + 'utils.py', PY + 'imagetool/export_change_map.py'], [('index_sccdpack', PY + 'utils.py'), ('unindex_sccdpack', PY + 'utils.py'), ('index_sccdpack', PY + 'imagetool/export_change_map.py')])
p('P16', 'Per-object summaries and normalisation are exact',
  'The mode or median of an object is computed over exactly its pixels, and normalisation clips to [0,1] with no-data mapped to the documented value.',
  'inputs', 'every small image and segmentation', 'One image.', [PY + 'ob_analyst.py'], [('modeby', PY + 'ob_analyst.py'), ('normalize_clip', PY + 'ob_analyst.py')])
p('P17', 'The thematic map consulted is the year before the change date',
  'Object analysis of a date consults the land-cover map of the latest year not after the year before the date, clamped to the available years.',
  'inputs', 'every date and set of available years', 'One date.', [PY + 'ob_analyst.py'], [('get_lastyear_cmap_fromdate', PY + 'ob_analyst.py')])
p('P18', 'Block layout and layer days follow the configuration',
  'The block layout of a tile is derived from its configured size and numbers of blocks (widths and heights multiply back to the tile, entries that are derived cannot be overridden, unknown entries are ignored), and the first days of the change-magnitude layers are the starting day plus whole intervals, one per layer.',
  'configurations inputs', 'every block size, starting day and entry', 'One configuration.', [PY + 'common.py', PY + 'utils.py'], [('DatasetInfo', PY + 'common.py'), ('class_from_dict', PY + 'utils.py'), ('get_anchor_days', PY + 'utils.py')])
p('P19', 'Stacked block files hold each pixel with its bands, scale, QA and date',
  'Preparing an image of any supported product (HLS, Landsat ARD of collection 1 and 2, Landsat collection 2) writes, for each block of the tile, a file named after the image and its date whose row for a pixel holds that pixel\'s blue, green, red, near-infrared, two short-wave infrared and thermal values in that order on the documented scale of the product and its decoded QA class, fill where the image has none; images with too few clear pixels are skipped.',
  'inputs configurations', 'every band and QA value of a small tile', 'Not imported by any test.', [PY + 'imagetool/prepare_ard.py'], [('single_image_stacking and relatives', PY + 'imagetool/prepare_ard.py')])
p('P20', 'Tile processing keeps observations, options and results with their pixel',
  'Processing a block calls the detector once for each of its pixels with exactly the observations of that pixel inside the requested date range, its position in the tile and the configured options; the stored records and change-map rows are those of that pixel, a pixel that fails leaves no record and fill in the change maps and does not disturb the others, and the reconstruction gets the same observations together with the break dates of that pixel.',
  'inputs configurations', 'every small block, image content and set of failing pixels', 'Not imported by any test.', [PY + 'imagetool/tile_processing.py', PY + 'ob_analyst.py'], [('main', PY + 'imagetool/tile_processing.py'), ('reconstruct_reccg', PY + 'ob_analyst.py')])

p('P21', 'Exported maps show every confirmed break at its pixel and year',
  'For every method, number of workers and tile layout, the exported break map of a year holds at each pixel 1000 times the type plus the day of year of the pixel\'s (last) confirmed break of that year and no-data elsewhere, pixels of blocks without records included; the recent and first disturbance maps hold the latest and earliest year with a land disturbance, the coefficient maps the coefficients of the record covering July 1st, and every raster has the size of the reference image.',
  'inputs configurations', 'every small tile, record content and number of workers', 'Not imported by any test.', [PY + 'imagetool/export_change_map.py'], [('main', PY + 'imagetool/export_change_map.py'), ('extract_features', PY + 'imagetool/export_change_map.py')])
p('P22', 'Reference values predicted in Python are the harmonic series of the model',
  'The reference value of a model at any day is its intercept plus slope times day/10000 plus, for each of its one to three harmonics, cosine and sine coefficient times the cosine and sine of the day at that multiple of the yearly frequency - the series the detectors fit - for one band and for several bands at once.',
  'inputs', 'every coefficient and day, models of 4, 6 and 8 coefficients', 'No stable test predicts a value.', [PY + 'utils.py'], [('coefficient_matrix', PY + 'utils.py'), ('predict_ref', PY + 'utils.py')])
p('P23', 'What the native detector produced is what Python returns',
  'For every pixel the native detectors receive the bands, quality codes, dates and options of the call in the documented places with room for all results, and Python returns exactly the records, change-magnitude layers, snapshots, queue, model, mode and position they produced, in the documented container for each mode; updating a stored state hands that state over unchanged, leaves the caller\'s copy as it was, and an undocumented mode raises an error instead of returning a record.',
  'inputs histories', 'every value, option, mode and number of records', 'One pixel in two modes.', [PY + '_colds_cython.pyx'], [('_cold_detect', PY + '_colds_cython.pyx'), ('_sccd_detect', PY + '_colds_cython.pyx'), ('_sccd_update', PY + '_colds_cython.pyx')])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')

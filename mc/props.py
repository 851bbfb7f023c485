"""The properties. `python -m mc.props` rewrites /verif/properties.jsonl."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe_at=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], hook_needed=None)
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe_at:
        anchors['observe_at'] = observe_at
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors))


DS = 'timeseria/datastructures.py'
OP = 'timeseria/operations.py'
TR = 'timeseria/transformations.py'
UT = 'timeseria/utilities.py'
ST = 'timeseria/storages.py'
UN = 'timeseria/units.py'
MB = 'timeseria/models/base.py'
MR = 'timeseria/models/reconstructors.py'
MF = 'timeseria/models/forecasters.py'
MA = 'timeseria/models/anomaly_detectors.py'
PL = 'timeseria/plots.py'
IN = 'timeseria/interpolators.py'

prop('S01', 'Series keep their invariants through every edit history',
     'After any sequence of appends, insertions, removals, pops and clears (accepted or refused), a series holds items of one kind, with the same data labels or length, strictly in order for points and back-to-back with the same unit and timezone for slots. '
     'An edit that would break this is refused with an error, every other edit is accepted, and a refused edit leaves contents, resolution and later behaviour as they were. '
     'The series then reports the same length, resolution and (for variable resolutions) guessed resolution as one freshly built from the same items. '
     'The same goes for the list notation: setting, deleting or slicing items in place either leaves such a series or is refused with the series as it was, and a copy is a series of the same kind with the same items.',
     ['histories'], 'Every sequence of editing operations, with well- and ill-formed items, on every kind of series.',
     'Tests run a handful of fixed edit sequences, mostly appends; the corruption shows only after particular refused or middle edits followed by other ones.',
     [DS], [('type, order, succession and data checks', 'Series.append/insert/pop/remove'), ('resolution, timezone and unit upkeep', 'TimeSeries.append/insert/pop/remove/clear')],
     state=[('items', 'the ordered items', DS), ('resolution', 'resolution derived from the items', DS)])

prop('S02', 'Resolution and timezone of a series are those of its items',
     'A point series with two or more points reports a resolution equal to their spacing when they are all equally spaced and "variable" otherwise (undefined with less than two points), and a slot series reports the unit of its slots. '
     'This holds for any spacing from a fraction of a second to years, and the reported resolution is a time unit with exactly that duration. '
     'The timezone reported is the one set on the series, or otherwise the one common to all of the items, or UTC if they differ. '
     'A timezone set on a series is also that of its slices, views and copies and of what operations and transformations give from it.',
     ['inputs'], 'Every spacing, including fractional seconds and spacings whose decimal form contains zeros, every pattern of gaps every assignment of timezones to the items, and every chain of derivations from a series with its own timezone.',
     'Tests use round spacings (one minute, one hour, one day) and one timezone pattern at a time.',
     [DS, UT, UN], [('resolution tracking', 'TimeSeries.append'), ('naming of a time interval', '_to_time_unit_string'), ('timezone detection', 'TimeSeries.tz')])

prop('S03', 'Slots tile the calendar with no gaps across DST and month lengths',
     'A slot starting at a point with a calendar or physical unit ends exactly where the next one has to start: a day, week, month or year later on the wall clock of its timezone, or the exact number of seconds later for hours, minutes and seconds. '
     'A series of consecutive slots built this way is always accepted, whatever DST changes or month lengths it crosses, keeps its timezone and unit, and any slot not starting where the previous ended, or with another unit or timezone, is refused. '
     'The duration of each slot is the real elapsed time.',
     ['inputs', 'histories'], 'Every start instant, unit and timezone, including runs crossing DST changes, leap days and year ends.',
     'Tests build a few slots in UTC or on one side of a DST change.',
     [DS, UN], [('end from start plus unit', 'Slot.__init__, TimeUnit.__radd__'), ('succession check', 'TimeSlot.__succedes__'), ('timezone from datetimes', 'TimePoint.__init__')])

prop('S04', 'Access and slicing by position or time return exactly the right items',
     'Accessing a time series by position, epoch or datetime returns the item at that position (negative positions counting from the end) or at that instant, and raises an error if there is no such item. '
     'Slicing returns, in order, exactly the items whose position (as for lists) or time (start included, end excluded, slots only if entirely included) falls in the bounds, with any bound left open. '
     'Head, tail, contents and iteration are consistent with it, and none of them changes the series.',
     ['inputs'], 'Every series shape, position (in range, negative, out of range), instant and pair of slice bounds.',
     'Tests check a few in-range positions and slices on one series.',
     [DS, OP], [('square brackets', 'TimeSeries.__getitem__'), ('get and slice operations', 'Get._call, Slice._call')])

prop('S05', 'A view behaves as the corresponding part of the series',
     'A view over a range of a time series has the same length, items, iteration (also when nested or interrupted), indexing, slicing, emptiness, labels and scalar operation results as a separate series made of those items only, and never exposes items outside of the range (its resolution is the one of the underlying series). '
     'Materializing or duplicating it gives an equal but independent series, and nothing done through a view for reading changes the underlying series. '
     'The items of a view cannot be changed through it: appending, inserting, removing, setting or deleting them is refused and leaves both the view and the series as they were. Operations on a view give the same items as on the separate series.',
     ['inputs', 'histories'], 'Every range over every small series and every interleaving of nested iterations and accesses.',
     'Tests iterate one view once and check a couple of indexes.',
     [DS], [('index translation', 'TimeSeriesView.__getitem__, __iter__, __len__'), ('copy', 'TimeSeriesView.materialize')])

prop('I01', 'Points and slots are sound values',
     'A point or slot built in any of the supported ways (coordinates, epoch, datetimes of any timezone library, another point, start and end, start and unit) is exactly where asked and in the timezone asked, gives back the same instant as epoch and as datetime, and only there: changing its timezone never moves it nor touches other items. '
     'Items of the same class are equal if and only if they have the same position and data, comparing an item with anything never fails and gives the same both ways round, and one-dimensional points are ordered as their coordinates. '
     'A slot goes from its start to its end, its length is the difference, its unit leads from one to the other, and a slot ending before or at its start, or with inconsistent kinds, dimensions or timezones, is refused. '
     'The data loss of an item is the index with that name, and indexes are shared neither with other items nor with what was given.',
     ['inputs', 'histories'], 'Every way of building an item, every position, timezone, data and indexes, every pair of items and every sequence of timezone changes.',
     'Tests build a few items per class, and compare only some with others of the same class.',
     [DS], [('points', 'Point, TimePoint, DataPoint, DataTimePoint'), ('slots', 'Slot, TimeSlot, DataSlot, DataTimeSlot'), ('data indexes', 'DataPoint.__init__, DataSlot.__init__')])

prop('L01', 'Editing data labels and indexes touches exactly those, on every item',
     'Renaming a data label of a series moves the values of every item to the new label, and nothing else; removing a label or an index (or the data loss) takes away exactly that from every item. '
     'Positions, timezones, values of other labels and other indexes do not change, a duplicate made before is not affected, and the series then behaves (labels, filtering, operations, what it accepts) as one built with such items. '
     'Renaming a label which is not there, or to one already there, or on data without labels, is refused with the series as it was.',
     ['histories'], 'Every history of label and index edits and appends, on every kind of series.',
     'Tests rename and remove one label on one series; the loss of data shows when the new label is already there, and leftovers only on some of the items or later in the history.',
     [DS], [('labels', 'Series.rename_data_label/remove_data_label'), ('indexes', 'Series.remove_data_index/remove_data_loss')])

prop('U01', 'Time unit arithmetic follows the calendar and is consistent',
     'Shifting an instant by a time unit moves it by the exact physical duration for hours, minutes and seconds, and on the wall clock of the timezone for days, weeks, months and years; shifting back by a physical unit returns to the original instant. '
     'Flooring returns the latest unit boundary not after the instant, ceiling the next one (on the timezone for units dividing the hour, on UTC for any physical unit), and rounding the closest of the two. '
     'Sums, differences, equality and the duration in seconds of units agree with this, also between different spellings of the same unit, and with numbers for generic units.',
     ['inputs'], 'Every unit of the supported kinds, every instant around DST changes, month ends and leap days, in several timezones.',
     'Tests sample a few instants and units, mostly in one timezone.',
     [UN, DS], [('unit arithmetic', 'TimeUnit.__radd__, __rsub__, shift, floor, ceil, round, as_seconds'), ('points plus units', 'Unit.__add__')])

prop('O01', 'Operations never alter their input, and in-place is the same as not in-place',
     'Operations on a series (scalar operations, derivative, integral, diff, cumulative sum, normalize, rescale, offset, moving average, filter, slice, select, merge, resampling, aggregation) leave the series they are applied on exactly as it was, and changing the result afterwards does not change the source (slices, selections and accesses give the items themselves). '
     'For the operations that can also be run in place, the series then becomes exactly what the operation would have returned (derivatives, integrals and cumulative sums are added to the labels already there for dictionary data, and replace the values for list data). '
     'Applying the same operation twice on the same series gives the same result.',
     ['programs', 'inputs'], 'Every operation and pair of operations, on every small series of points or slots, with dictionary or list data, with or without data indexes.',
     'Tests look at the values of the result, on one series per operation, and hardly ever at the source afterwards.',
     [OP, TR, DS], [('result construction', 'Operation subclasses'), ('in-place branches', 'Derivative/Integral/Diff/CSum/Normalize/Rescale/Offset/MAvg')])

prop('O02', 'Minimum, maximum, average and sum are exact for every series',
     'The minimum, maximum, sum and average of a series are, for each data label, those of the values of its items; with a data label given, only the value for that label is returned. '
     'They are the same on a view, a slice or a filtered series holding the same values, and do not depend on how the series was obtained.',
     ['inputs'], 'Every assignment of values (negative, zero, equal, fractional) to the items of every small series, with any number of labels.',
     'Tests check one or two fixed value lists.',
     [OP], [('scalar operations', 'Max/Min/Avg/Sum._call')])

prop('O03', 'Element-wise operations transform each value as defined and nothing else',
     'Rescale and offset multiply or add to each value the given number (or the one given for its label), normalize maps linearly each label values from their range (or the given source range) to the target range, moving average gives the mean over each full window, filter keeps exactly the requested labels, select exactly the items matching the query. '
     'Timestamps, timezone, item kind, order and (but for moving averages) the data indexes of the items are preserved. '
     'Requests that cannot be satisfied, as normalizing a constant with no source range, are refused.',
     ['inputs'], 'Every small series of points and slots, parameter value and label set.',
     'Tests check each operation on one series with one or two parameter values.',
     [OP], [('operations', 'Normalize/Rescale/Offset/MAvg/Filter/Select')])

prop('O04', 'Differences, sums, derivatives and integrals match their definitions',
     'Diff returns the difference of each value from the previous one, cumulative sum the running totals (from the given offset), and one undoes the other up to the starting value. '
     'The derivative is the incremental ratio over real elapsed time (the average of the left and right ones for inner points of a series), and the integral accumulates value times elapsed time, so that integrating the derivative by differences of a series gives back the original series, up to the integration constant. '
     'Item positions of the results are those documented for each operation; starting from an offset, which adds an item before the first, is refused where that item is not defined (calendar units, variable resolutions).',
     ['inputs'], 'Every small series of points and slots, evenly or unevenly spaced, every value assignment and parameter combination.',
     'Tests check a handful of series, one for each parameter combination.',
     [OP], [('operations', 'Derivative/Integral/Diff/CSum')])

prop('O05', 'Merging keeps every value, only over the common period',
     'Merging aligned series with the same resolution gives a series covering exactly the items present in all of them, where each item carries the labels and values of all of the merged series at that position (averaged, for labels in more than one). '
     'Data losses and the other indexes are averaged over the series having them, and series not compatible with each other (different resolutions, kinds, misaligned, variable resolution, or list data) are refused; with no period in common the merge is refused or empty. '
     'The merged series are not altered, and their order does not matter for the values.',
     ['inputs'], 'Every combination of two or three small series with any starting and ending offset.',
     'Tests merge two or three series with one overlap pattern.',
     [OP], [('merge', 'Merge._call')])

prop('T01', 'Resampling gives the time-weighted averages on the right grid',
     'Resampling a point series gives points on the multiples of the sampling interval, all and only those whose interval is covered by the data (equally spaced, in order, with the same labels and timezone). '
     'Each value is the average over its interval of the data, where each source point is valid around it up to half of the sampling interval and the gaps are filled with linear interpolation: constant series stay constant, values always stay within the source range, and shifting or scaling the values or the time of the source does the same to the result.',
     ['inputs'], 'Every pattern of missing or unevenly spaced points, value assignment and target interval (down-sampling) on small series.',
     'Tests use a few fixed series and compare a few points.',
     [TR, UT, IN], [('windowing and averaging', 'Resampler, _compute_new'), ('validity regions', '_compute_validity_regions'), ('gap filling', 'LinearInterpolator')])

prop('T02', 'Aggregation gives one slot per calendar unit, with the right values',
     'Aggregating a series gives consecutive slots of the requested unit aligned to the calendar (or clock) of the timezone of the series, all and only those fully covered by the series, across DST changes and month lengths (physical units longer than one hour on UTC only). '
     'The values for each requested operation are those over the portion of the data falling in the slot (for averages weighted by time), and requesting more operations does not change the others.',
     ['inputs'], 'Every starting and ending instant, gap pattern, unit, timezone and operation set for small series.',
     'Tests use a few fixed series, two timezones and one unit each.',
     [TR, UT], [('slots creation', 'Aggregator.process'), ('values', '_compute_new')])

prop('T03', 'Data losses are the fraction of time not covered by data',
     'The data loss of each item produced by resampling or aggregating is the fraction of its interval not covered by source data, combined with the data losses of the source when it has any; it is always between zero and one, zero when there are no gaps, and one when there is no data at all. '
     'The other data indexes are averaged over the interval. '
     'Data losses can be forced on every item or removed, and are kept or dropped as requested.',
     ['inputs'], 'Every pattern of missing points and every assignment of data losses and indexes to the items of small series.',
     'Tests check one gap pattern per case.',
     [TR, UT], [('coverage', '_compute_coverage'), ('data losses', '_compute_data_loss'), ('indexes', '_compute_new')])

prop('P01', 'What is saved to CSV is what is loaded back',
     'Saving any time series of points or slots and loading it back gives the same items, in the same number and order: timestamps, timezone, item type, unit, values for each label (positions as labels for list data), data losses and data indexes; labels that cannot be represented are refused. '
     'Saving does not alter the series, never overwrites an existing file unless asked to, and when asked to leaves nothing of the previous contents.',
     ['inputs', 'histories'], 'Every small series: any labels, values, indexes (also on some of the items only), timezone and unit, and every sequence of saves and loads on the same file.',
     'Tests save and load a couple of series in one format.',
     [ST, DS], [('writing', 'CSVFileStorage.put'), ('reading', 'CSVFileStorage.get'), ('metadata', 'TimeSeries.save/load')])

prop('C01', 'A save which fails or is interrupted loses nothing and cannot be taken for good',
     'If saving a series or a model fails, or the process is interrupted while doing it, whatever had been saved before is still there as it was (or is entirely replaced by the new contents), other files are untouched, and loading gives what was there before, '
     'what was being saved in full, or an error: never a part of it or altered values. A save of a series which fails leaves no other files, and saving again gives a good file.',
     ['crash_points', 'fault_sequences'], 'Every byte written and every file system operation of a save, interrupted or failing, over every kind of previous content.',
     'Tests never make a save fail.',
     [ST, MB, MA], [('series', 'CSVFileStorage.put'), ('models', 'Model.save, ModelBasedAnomalyDetector.save')])

prop('P02', 'Reading a CSV file never loses, alters or invents data silently',
     'Every well formed line of a CSV file becomes exactly one item with the timestamp and values of that line, whatever the position of malformed, commented or empty lines; a malformed line raises an error unless skipping the errors is requested, in which case only that line is missing. '
     'Missing slots are filled with items marked as fully lost and with values linearly interpolated between their neighbours, and only between existing slots. '
     'Out of order or duplicate timestamps are either refused or sorted if requested, as documented.',
     ['inputs', 'fault_sequences'], 'Every placement of malformed, commented, empty, duplicate, unordered or missing lines in small files, for every supported timestamp format.',
     'Tests have a few sample files with one fault each.',
     [ST], [('parsing', 'CSVFileStorage.get')])

prop('P03', 'Dictionary, JSON and data frame conversions are lossless',
     'Converting a time series to a dictionary, JSON or data frame and back gives the same instants, values and labels in the same order, for points and for slots (given their unit); data losses are in the data frame for exactly the items having one. '
     'The conversions do not alter the series.',
     ['inputs'], 'Every small series of points or slots with any values, labels, timezone and sub-second timestamps.',
     'Tests convert one series per format.',
     [DS], [('conversions', 'TimeSeries.to_dict/from_dict/to_json/from_json/to_df/from_df')])

prop('H01', 'Results depend only on the data, not on what has been done before',
     'What is obtained from a series by any query, operation, transformation, export or detection depends only on what the series holds at that moment: not on what has been computed before in the same process from other series, however similar, with the same operation or transformation object or with others, nor from the same series before editing its values, labels, indexes, items or time zone. '
     'In the same way, what a model gives depends only on the series of its last fit and on the one it is used on, and not on other uses, other fits or other models, and shifting or rounding an instant by a time unit depends only on that instant, with its own time zone, and unit.',
     ['histories', 'inputs'], 'Every ordered pair of uses on families of nearly identical series, every function before and after every edit of a series, every model used on every ordered pair of series.',
     'Tests compute each thing once, in a given order, on series having nothing in common.',
     [DS, OP, TR, UN, UT, MB, MF, MR, MA], [('operations', 'Operation.__call__'), ('transformations', 'Transformation.process'), ('models', 'Model.predict, Model.apply, Model.evaluate'), ('units', 'TimeUnit.shift')])

prop('N01', 'What is computed for a period is the same on a short and on a long series',
     'What is computed for a period depends on the data of that period and on what is next to it, not on how long the series is: differences, derivatives, moving averages, rescaled values, filters, slices, merges, saved and loaded series, resampled and aggregated series, interpolated missing values have, at any length, the same items they have when computed on the part of the series around them. '
     'Totals, cumulative sums, searches and slices by position or time (also with uneven spacings), appends, periodic averages, forecasts of any number of steps, reconstructions and anomalies are right at any length as well.',
     ['inputs'], 'Every length up to a bound, and around powers of two and round numbers after it, for every function and kind of series, and every part of each series.',
     'Tests use a few fixed lengths, mostly short, or check only the length of the result on the long ones.',
     [OP, TR, DS], [('operations', 'MAvg._call'), ('transformations', 'Transformation.process'), ('access by time', 'TimeSeries._item_by_t'), ('periodic averages', 'PeriodicAverageForecaster.fit')])

prop('K01', 'What is computed does not depend on when the data is',
     'The same data in another period gives the same results, in that period: with an item at the epoch, before it, across or after the end of 32 bits timestamps, centuries before or after. This holds for operations, transformations, accesses and slices by time, edits, conversions and saved series, models (fit there, or elsewhere) and for the arithmetic of time units, '
     'with the calendar and the clock of the time zone repeating themselves in the same way.',
     ['inputs'], 'Every placement such that one of the items is at the epoch, and other places across the ends of the timestamps and centuries away, for every function, edit, model and unit.',
     'Tests use a few fixed instants, nearly all of them after the epoch and in recent years.',
     [DS, OP, TR, UN, UT, ST, MF, MR, MA], [('access by time', 'TimeSeries._item_by_t'), ('grids', 'Transformation.process'), ('units', 'TimeUnit.floor, TimeUnit.ceil'), ('periodicity index', '_get_periodicity_index')])

prop('W01', 'What is computed for a data label depends only on the values of that label',
     'On a series with more than one data label, what is obtained for each of them is what is obtained from a series with the values of that label only: statistics, element-wise operations, differences, integrals, merges, slices, conversions, saved and loaded series, resampled and aggregated series, interpolated missing values, forecasts. '
     'It does not depend on which the other labels are, on their values, on their names (also if alike, numbers or containing spaces and symbols) and on their order in the data of the items. The same holds for each position of series of lists of values, however many they are, and removing, renaming or filtering a label does not touch the other ones.',
     ['inputs'], 'Every ordered choice of labels out of a set of names, for every function and kind of series, and lists of each size up to a bound.',
     'Tests use one or two labels, nearly always in alphabetical order and with names not alike.',
     [OP, TR, IN, DS, ST, MF, MR], [('operations', 'Normalize._call and the other operations'), ('labels', 'DataPoint.data_labels, Series.data_labels'), ('transformations', '_compute_new'), ('interpolators', 'LinearInterpolator.evaluate')])

prop('V01', 'What is computed does not depend on the unit of measure of the values',
     'The same data expressed in another unit of measure (all of the values multiplied by the same number, also negative, very small or very large, or moved by the same amount, also so that some of them become zero or change sign) gives the same results, expressed in that unit: statistics, differences, integrals, merged, resampled and aggregated series, conversions, interpolations, '
     'forecasts, reconstructions and errors follow the values, while normalized values, percentage errors, anomaly indexes, periodicities, data losses and times stay the same. Nor does it matter whether the values are integers, floats or NumPy scalars.',
     ['inputs'], 'Every assignment of values to small series, changes of unit of measure, types, functions and models.',
     'Tests use values around one or ten, nearly always positive floats.',
     [OP, TR, IN, DS, ST, UT, MF, MR, MA], [('operations', 'Normalize._call and the other operations'), ('interpolators', 'LinearInterpolator.evaluate'), ('models', 'PeriodicAverageForecaster, PeriodicAverageReconstructor, ModelBasedAnomalyDetector')])

prop('X01', 'What is done in a thread does not affect what is done in another one',
     'Using a series (only reading it) or a fitted model from more than one thread at the same time gives each of them what it would get on its own, whenever the switches between them happen, and leaves the series and the model as they were; so does working on different series and models. '
     'Saves on different files do not mix, saves on the same file leave one of the two in full and no other files, and loading a file while it is being saved gives what was there before or what is there after, in full.',
     ['schedules'], 'Every ordered pair of functions, model uses, saves and loads, with a switch before each line executed by the first one.',
     'Tests are single threaded.',
     [DS, OP, TR, ST, MB, MF, MR, MA], [('series', 'Series, TimeSeries.load'), ('storages', 'CSVFileStorage.put'), ('transformations', 'Transformation.process'), ('models', 'Model.predict/apply/evaluate/save')])

prop('Y01', 'Results do not depend on the environment of the process',
     'What is computed from the same data is the same whatever the local time zone of the machine, the seed of the hashes (which makes the order of sets change from a process to another), the locale, the optimization and logging levels and the working directory: queries, operations, edits, transformations, models fit and used, exports and conversions, files read, units of time, instants made from dates (naive ones are refused, or taken in a given time zone, never in local time). '
     'Series, also with labels in any alphabet, and models saved by a process are loaded, and work, in the same way in another one with a different environment.',
     ['configurations', 'inputs'], 'Every combination of local time zone, hash seed and locale, on every function, model, format and unit.',
     'Tests run in one environment, usually on UTC, where local time and time in UTC are the same.',
     [DS, OP, TR, UN, ST, MB, MF, MR, MA], [('units', 'TimeUnit'), ('datastructures', 'TimePoint, Series.data_labels'), ('storages', 'CSVFileStorage.get/put'), ('models', 'Model.save/load/fit')])

prop('M01', 'Models refuse to be used out of order or on the wrong series',
     'For every model and every sequence of fit, cross validation, predict, apply, evaluate: before a successful fit or load the other operations are refused for the models requiring it, after it they are accepted on series with the same data labels and resolution and refused on any other series. '
     'A refused operation changes neither the model nor the series, refitting replaces the previous fit entirely, and a failed fit never leaves the model in between.',
     ['histories'], 'Every sequence of operations up to a bounded depth with matching and mismatching series, for each model.',
     'Tests run the straight fit-apply-evaluate sequence, with one wrong series at most.',
     [MB, MR, MF, MA], [('wrappers', 'Model.fit/predict/apply/evaluate'), ('checks', 'Model._check_* helpers')])

prop('M02', 'A saved and loaded model is the same model',
     'For every model that can be saved, saving a fitted model and loading it back gives a model with the same parameters that produces exactly the same predictions, applied series and evaluations on every series, also after saving and loading again; loading does not need the data used for fitting. '
     'Unfitted models and models which cannot be saved are refused, existing paths are never overwritten, and a save that fails leaves the model as it was and nothing that can be loaded as a model.',
     ['histories', 'inputs'], 'Every saveable model, parameter combination and fit series in a bounded family.',
     'Tests save and load one instance of each model and check one prediction.',
     [MB, MR, MF, MA], [('persistence', 'Model.save/load and subclasses')])

prop('M03', 'Reconstruction changes only what was lost',
     'Applying a reconstructor gives a series with the same timestamps, labels and indexes, where the values of the items with a data loss below the threshold are untouched and marked as not reconstructed, and each run of items above it is replaced by the values predicted for that run and marked as reconstructed. '
     'With linear interpolation these are on the straight line between the items surrounding the run. '
     'The input series is not altered.',
     ['inputs'], 'Every placement of lost items on small series, of points and slots, every data loss threshold and value assignment.',
     'Tests reconstruct one series with one or two gaps.',
     [MR], [('apply', 'Reconstructor.apply'), ('predictions', 'predict of each reconstructor')])

prop('M04', 'A forecast continues the series with the requested number of items',
     'Applying a forecaster for n steps gives the original items unchanged, marked as not forecast, followed by exactly n items marked as forecast that continue the series with its own spacing or unit and timezone (also across DST changes), with all of the target labels. '
     'The forecast values do not depend on what precedes the window the forecaster declares, are the same when asked as a prediction or as an applied series, and the first k of n steps are the same as when asking for k.',
     ['inputs', 'histories'], 'Every number of steps, series kind, length, timezone and forecaster of the package that does not need external libraries.',
     'Tests check a few forecasts on one series.',
     [MF], [('apply and forecast', 'Forecaster.apply/forecast/predict')])

prop('M05', 'Periodic averages are those of the data',
     'The periodic average models hold, after a fit with a given periodicity, for each position in the period the average deviation or value over all of the fit items in that position (also when the period crosses DST changes, for resolutions up to the hour), and on an exactly periodic series they predict, reconstruct and forecast exactly that series. '
     'Items with data losses above the limit are left out of the averages.',
     ['inputs'], 'Every small periodic pattern, period length, starting phase, number of repetitions and timezone, with and without missing data.',
     'Tests check errors within a tolerance on one sine wave.',
     [MR, MF, UT], [('averages', 'PeriodicAverageReconstructor._fit, PeriodicAverageForecaster._fit'), ('period position', '__get_periodicity_index')])

prop('M06', 'Anomalous events are marked exactly where they are',
     'For any series with anomaly indexes, threshold, minimum persistence and maximum gap, the items marked as part of an event are exactly those of the maximal runs of anomalous items (joined when not farther than the maximum gap) that last at least the minimum persistence. '
     'Each event spans its first to its last anomalous item, every item of the series is marked as part of an event or not, and nothing else of the series changes.',
     ['inputs'], 'Every pattern of anomalous and normal items up to a bounded length and every parameter combination.',
     'Tests check one sequence.',
     [MA], [('event marking', 'AnomalyDetector event grouping')])

prop('M07', 'Anomaly detection scores each item against its prediction, and only that',
     'A model-based anomaly detector gives each item it can score an anomaly index between zero and one that depends only on the prediction error of that item (or the worst of them when more predictions are used), not decreasing with the error (with its distance from the center of the distribution of the errors, for signed ones), and leaves timestamps, values and other indexes as they were. '
     'Items that cannot be scored are left out only at the borders, those with too much data loss in or around them are kept but not scored, fitting on clean data marks no anomaly above the expected level, and the input series is not altered. Pre-processing a series first, in place or not, does not change what is obtained from it nor from the series derived from it.',
     ['inputs'], 'Every placement and magnitude of an anomaly in a small periodic series, for each detector that does not need external libraries.',
     'Tests check one series with one anomaly.',
     [MA], [('fit and apply', 'ModelBasedAnomalyDetector')])

prop('M08', 'Evaluations and cross validations use each item the right way',
     'Cross validating in n rounds splits the series in n contiguous parts covering it with no overlaps, fits on the other parts (only on the longer side for models which cannot update their fit) and evaluates on each one exactly once, and reports mean and standard deviation of the evaluations of the rounds. '
     'Error metrics reported by evaluations and by the metric functions are those of their definitions over the compared items. '
     'A failed cross validation leaves the model not fitted.',
     ['inputs', 'configurations'], 'Every series length, number of rounds and metric, with a model recording what it is given.',
     'Tests check one number of rounds on one series.',
     [MB, UT, MF, MR], [('cross validation', 'Model.cross_validate'), ('metrics', 'mean_absolute_error and similar')])

prop('M09', 'LSTM forecasters are trained and used on exactly the windows of the data',
     'An LSTM forecaster is trained on one window for each item preceded by enough others, in order, made of the features requested (values, differences, hours) of the items of the window and of nothing else, paired with the values of the targets of that item; with context data, also the context of that item and never the values to predict. '
     'Windows touching items with too much data loss are left out, normalization maps each label of the fit data on zero to one and is undone on the predictions, and predicting (or forecasting, applying for more steps, evaluating, detecting anomalies) gives the network exactly the window at the end of the series, whatever comes before it. '
     'Context data must be complete, fitting again starts from scratch, a model loaded predicts as the one saved, and the series are not altered.',
     ['inputs', 'configurations'], 'Every combination of kind of series, labels, targets, context, features, window and normalization, and every pattern of losses, with a neural network recording what it is given and computing a known function.',
     'Tests need TensorFlow, check the final error on one series with wide tolerances, and nothing on what the network is given.',
     [MF, MB, MA], [('features', '_KerasModel._compute_window_features'), ('windows and targets', '_KerasModel._to_matrix_representation'), ('context', 'Model.predict')])

prop('M10', 'Prophet and ARIMA models use exactly the data, at its own times',
     'A Prophet forecaster or reconstructor is fit on the value of each item at its wall clock time, all of them and in order, and the value it predicts for an item (n steps ahead, or missing and to reconstruct) is the one Prophet gives for the wall clock time of that very item, also across changes of offset, by whatever number of steps, range or pattern of items. '
     'ARIMA and auto ARIMA forecasters are fit on exactly the values, with the order requested, and predict only right after the end of what they have been fit on, refusing any other series, also when it is the fit one after growing. Items forecasted or applied follow the series at its resolution, fitting again starts from scratch, a fit which fails leaves the model as it was, series with other labels or resolutions are refused, and no series is altered.',
     ['inputs', 'configurations', 'histories'], 'Every position of a change of offset with respect to the end of the data, number of items and of steps ahead, range and pattern of items to reconstruct, with libraries recording what they are given and computing a known function, which is compared with the actual ones.',
     'Tests only check that it works on two series in UTC, and the final error on one of them.',
     [MF, MB, MR], [('Prophet', 'ProphetForecaster.predict'), ('data given to Prophet', '_ProphetModel._from_timeseria_to_prophet'), ('ARIMA', 'ARIMAForecaster.predict'), ('reconstruction', 'ProphetReconstructor.predict')])

prop('D01', 'Sampling interval detection finds the dominant spacing',
     'The sampling interval detected for a point series is its most frequent spacing whenever one is predominant, always one of the actual spacings (rounded to the second if nearly all of them differ, and refused with an error if they still do), with a confidence between zero and one that is one only if all of the spacings agree with it; detection terminates for every series and does not depend on the values. '
     'It is recomputed when the series changes.',
     ['inputs', 'histories'], 'Every pattern of spacings over a small set, on series up to a bounded length.',
     'Tests detect the interval of three sample series.',
     [UT, DS], [('detection', 'detect_sampling_interval'), ('guess', 'TimeSeries.guess_resolution')])

prop('D02', 'Periodicity detection finds the period of periodic data, and nothing else',
     'On a series repeating a sinusoidal pattern (also with a weaker harmonic) a whole number of times, at least three, the periodicity detected is exactly the period, whatever the resolution, phase, amplitude, level and starting instant; very short periods (two and three items) may be refused but never detected as something else, and constant series are refused. '
     'Models fit with the automatic detection are the same as those fit giving the period, for each data label on its own.',
     ['inputs'], 'Every period, number of repetitions, phase, amplitude, level and harmonic in the bounds, on points and slots of several resolutions.',
     'Tests detect the period of two sample series.',
     [UT, MR, MF], [('detection', 'detect_periodicity'), ('use in the fits', 'PeriodicAverageReconstructor._fit, PeriodicAverageForecaster._fit')])

prop('E01', 'Error measures and error distributions are what they are defined to be',
     'The mean and max absolute, percentage and logarithmic errors and the mean squared error of two lists equal their definitions on any values on which they are defined, and lists of different lengths are refused. Rescaling maps the source range on the target one linearly, and refuses values outside of it. '
     'An error distribution gives the density of its family wherever it is centered, the adherence of a value is between zero and one, one at the center and equal to the probability of being as far from it or more, and the value found for a density is on the requested side of the center and has that density.',
     ['inputs'], 'Every pair of lists of values, every range and value, every distribution, center, scale, point and side.',
     'Tests check a couple of lists, and distributions centered on zero.',
     [UT], [('errors', 'mean_absolute_error ... max_absolute_log_error'), ('rescaling', 'rescale'), ('distributions', 'DistributionFunction')])

prop('Z01', 'Changing timezone never moves an item in time',
     'Changing the timezone of a series (or getting a copy of it on another one) changes the timezone reported by the series and all of its items and their wall clock, but no instant, order, value or index; the copy leaves the original as it was. '
     'Operations not based on calendar or clock boundaries give the same instants and values before and after, on the new timezone.',
     ['inputs', 'programs'], 'Every small point or slot series and pair of timezones, with instants around DST changes.',
     'Tests check one conversion.',
     [DS], [('timezone change', 'change_tz/as_tz of points, slots and series')])

prop('G01', 'Plots show every value at its own time',
     'The data passed to the interactive plot has, when not aggregated, exactly one entry per item, at its own time (on the wall clock of the timezone of the series) and with its values and indexes under their own labels; when aggregated for large series, each entry covers a fixed number of consecutive items in order with their average, minimum and maximum, in the middle of the time going from the first to the last of them (to its end, for slots), and no item is skipped or counted twice, but for a tail shorter than an entry. '
     'The range shown includes every value, and marks are placed at their own instants, on whatever timezone they are given.',
     ['inputs'], 'Every series length, aggregation factor, timezone and index set in the bounds.',
     'Tests only check that plotting does not raise.',
     [PL], [('conversion', '_to_dg_data')])


if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')

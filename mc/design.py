"""`python -m mc.design` rewrites /verif/DESIGN.md from the notes below and from what the check modules declare, so that they stay in step."""
import importlib
import json
import os

from .props import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Model checking of Timeseria: design

(Written by `python -m mc.design` from the notes in `mc/design.py`, the bounds declared by the check modules, `KNOWN_FINDINGS.txt` and the planted bugs.)

## The approach

Timeseria is a single-threaded, in-memory library of data structures, operations, transformations and models. Its guarantees are of the form "for every series / for every history of
edits / for every parameter": small in structure (a few items are enough to show almost any defect) but unforgiving at the edges: DST changes, month ends, zeros, missing indexes, negative
epochs, borders of windows, refused operations in the middle of a history. It has no concurrency, and its only crash surface is the file system (CSV storage and saved models).

The technique used throughout is **explicit-state, bounded-exhaustive model checking of the real code**:

* a *transition system* is defined for each property: states are series (or models, or files), transitions are calls of the real API of /repo (imported from the current working tree, with
  no copies, no translation and no hooks), including the calls which have to be refused;
* the bounded space (initial states x parameters x histories up to a depth, or up to the fixpoint of the reachable states) is *enumerated completely*: `cases(tier)` of each check yields the
  whole space. There is no sampling: `VERIF_SEED` only rotates the order in which the cases are handed out to the processes;
* on every execution the observations are compared with a *reference model* written independently from the definitions (plain lists, `math`, `datetime` and `zoneinfo` rather than the pytz
  used by the library, piecewise integration for resampling, a record of what each stub was given). The model and the code run in lock-step, so that the model is bound to the code by
  construction: each transition explored is also a conformance check (`traces_validated_against_impl` in the evidence is the number of executions whose observations were all compared);
* for files, a *fault injector* enumerates which file operation of a save fails (all of them, one at a time) and, for CSV contents, which lines are malformed, commented, repeated, missing or
  out of order.

SPIN/TLC models were considered and left out: with no concurrency, a separate model would only add the question whether it matches the code, while the code is fast enough to explore directly.

### Machinery

* `mc/core.py`: the driver. Enumerates the cases of a module, shards them over forked processes (with watchdogs, memory limits and scratch directories), collects states, transitions,
  validated executions and distinct outcomes, matches failures with `KNOWN_FINDINGS.txt`, writes replay files and the evidence.
* `mc/lib.py`: builders, snapshots of series and items (every observable), outcomes of calls (value or refusal), independent calendar.
* `mc/gen.py`: families of series shared by the checks on operations. `mc/windows.py`: reference for resampling and aggregation. `mc/plotjs.js`: stand-in for the plotting library.
* `mc/checks/<id>.py`: one module per property: `cases`, `run`, and its declared rule, assumptions and bounds (also in the evidence).
* `mc/props.py`, `mc/manifest.py` and `mc/design.py` write `properties.jsonl`, `MANIFEST.json` and this file.
* `./check.sh ID quick|thorough`; `./check.sh ID --replay FILE` re-runs the case of a violation; `MC_REPO=/a/copy ./check.sh ID` checks a modified copy.

A failure is reported with a *key* naming what disagrees on which class of inputs (as `json:calendar-slots-on-other-time-zones`). Known findings are matched on the key, so that any other
violation of the same property is still reported.

### Quiet on code where the property holds

Checks look at public observables only: timestamps, values, indexes, labels, resolutions, whether an error is raised, files on disk, what the stub models are given. Types and messages of errors
are not compared, floating point results have tolerances where the order of the operations is not specified, and where the documentation leaves freedom every allowed behaviour is
accepted (see the assumptions of each property). No check looks at the source code.

### Costs

All of the quick checks take about ten minutes together on 8 cores (none over a minute or so when alone); thorough ones from seconds to about fifteen minutes each.

## Properties

In all cases tests cannot settle the matter because they check a handful of fixed inputs; what is specific of each property is in `why_tests_cant` of `properties.jsonl`.

'''

# What is decided, against what, and how the exploration reaches it
NOTES = {
    'S01': ('a series as a plain list of items with a validity predicate (one kind, same labels, order or succession, unit, timezone)',
            'breadth first search of the states reachable by appends, inserts, removals, pops, clears, copies and every form of the list protocol, over an alphabet of well- and ill-formed items, to the fixpoint: as the states are closed, histories of any length over the alphabet are covered. In each state every operation is tried, also the refused ones, and the series compared with one freshly built.'),
    'S02': ('the spacing pattern and the timezones given', 'every spacing of a list from milliseconds to years, every pattern of spacings, every assignment of timezones to the items, and every chain of derivations (views, slices, operations, transformations) from series with their own timezone.'),
    'S03': ('an independent calendar on zoneinfo', 'every start in the bounds (all days around DST changes), unit and timezone; runs of slots are built one on the end of the other and every wrong successor is tried.'),
    'S04': ('list indexing and a scan of the items on their times', 'every position, instant (on, between, before and after the items) and pair of bounds of every small series.'),
    'S05': ('the separate series with the items of the range', 'every range and nested range, every accessor and operation, every edit through the view, and every interleaving of two iterators (their states being the positions of each).'),
    'I01': ('plain tuples of position, timezone, data and indexes', 'every constructor x instant x timezone x kind of datetime, every ill-formed construction, every pair of a family of about 250 items of all the classes (equality, order, succession), every sequence of timezone changes.'),
    'L01': ('a list of dictionaries', 'breadth first search of the histories of renames, removals and appends, points and slots, generic and in time; in each state every operation is tried, also the refused ones.'),
    'E01': ('definitions over plain lists, closed formulas of the distributions', 'every pair of lists, every range and value, every distribution x center x scale x point x side.'),
    'U01': ('an independent calendar on zoneinfo', 'every unit x timezone x instant in the bounds, for shifts, floors, ceilings, roundings, sums and comparisons of units.'),
    'O01': ('deep snapshots before and after; the same operation on a series rebuilt from scratch', 'every operation and every ordered pair of operations on every shape of series.'),
    'O02': ('min, max, sum over plain lists', 'every assignment of values, on the series and on the same values reached through slices, views, filters, copies, resampling and aggregation.'),
    'O03': ('the formulas on plain lists', 'every assignment of values x parameters x index patterns.'),
    'O04': ('the formulas over exact elapsed times', 'every assignment of values x parameters, and the algebraic laws between the operations.'),
    'O05': ('a dictionary keyed by position', 'every placement of two and three series on a grid, with every pattern of common labels and indexes, and incompatible ones.'),
    'T01': ('exact averages of a piecewise linear function with the documented validity regions', 'every sequence of spacings x phases x target intervals x values, and the metamorphic laws (shift and scale of values and time).'),
    'T02': ('exact averages and extremes per calendar slot, the slots from an independent calendar', 'every pattern of positions x phases x units x timezones across DST changes and month lengths, every set of operations and custom ones.'),
    'T03': ('exact measure of the intervals not covered', 'every pattern of missing points x losses x phases x targets, with forced, dropped and kept indexes.'),
    'P01': ('the items themselves, and the bytes of the file before', 'every kind of series x labels x values x indexes x timezones, and every history of saves and loads on the same file against a one-file machine.'),
    'C01': ('what was there before, and a complete save', 'every byte written (real torn writes, with the limit on the size of the files of the operating system) and every file system operation (from the audit events of the interpreter) of every save, killing the process or failing, over every kind of previous content, in a process on its own.'),
    'P02': ('an independent reading of the lines', 'every sequence of line kinds (good, malformed, commented, empty, repeated, out of order) x arrangement of columns x timestamp format x options, and every pattern of missing slots.'),
    'P03': ('the items themselves', 'every kind of series x timezone x labels x pattern of losses, for dictionaries, JSON and data frames.'),
    'M01': ('a machine whose state is what the model was last successfully fit on', 'every history of good, wrong and failing fits, cross validations and uses; allowed uses are compared with those of a new model fit on the same, refused ones with no change at all. Plus fits on every combination of resolution and labels, used on all of the others.'),
    'M02': ('the original model on probe series', 'every parameter combination x source x probe x operation, every history of fits, saves and loads on two paths against a machine, and every single failing file operation of a save.'),
    'M03': ('a reference reconstruction on lists', 'every word of losses x threshold x kind of series x reconstructor.'),
    'M04': ('a reference continuation from an independent calendar', 'every kind of series x start x length x steps x forecaster, and every failing step.'),
    'M05': ('the pattern itself and averages by position', 'every periodic pattern x phase x length x kind of series, every gap, every placement of a lost or deviating item.'),
    'M06': ('maximal runs computed on the word', 'every word of kinds of items x threshold x persistence x gap.'),
    'M07': ('errors, distributions and indexes computed independently', 'every placement and magnitude of anomalies and lost items x detector x metric x index type x bounds.'),
    'M08': ('definitions of the metrics; rounds done by hand; a record of what the stub models are given', 'every pair of lists, every length x rounds x window, every evaluation of stub models.'),
    'M09': ('the training set, the inputs and the predictions computed on plain lists', 'every kind of series x labels x targets x context x features x window x normalization, every pattern of losses x limit; a stand-in for Keras records all what the network is given.'),
    'M10': ('what a known function gives on the plain values and wall clock times', 'every kind of series x position of the change of offset x items x steps, ranges and patterns of losses; stand-ins for Prophet, statsmodels and pmdarima record all what they are given. The models are also run with the actual libraries, and compared with using them directly; what the stand-in for Prophet assumes is checked on it.'),
    'N01': ('the same function on the part of the series around each item, or the plain values for totals, accesses and models', 'lengths x 33 functions x kinds of series, with and without losses, all of each series covered by overlapping parts; it carries to any length up to the bound what the other checks decide on the short ones.'),
    'K01': ('the same function on the same series in 2025 and 2026, moved by a whole number of turns of the calendar', 'each of the items at the epoch, and other places from year 1226 to 2826, x spacings and units x functions, edits, models; every unit x instant around these places.'),
    'W01': ('the same function on each label alone, put together', 'each ordered choice of 2 and 3 labels out of a set of names x 48 functions x kinds of series, and lists of up to 12 values; carries to any number of labels what the other checks decide on one or two.'),
    'V01': ('the same function on the values as they are, expressed in the other unit', 'every assignment of values to short series of 6 kinds x 57 functions and models x changes of unit (by powers of two, from 2^-300 to 2^300, so that the results have to be the same but for the exponent, by -1, and moved so that each value gets to be zero) x types of the values.'),
    'Y01': ('the same computed by a process in the reference environment', 'every part of a catalogue (functions and edits on families of series, models, formats of the timestamps, units, ways of making instants, data frames, series and models saved in an environment and loaded in the other, both ways) x every environment (local time zone x hash seed, locale, optimization, logging, working directory), each in its own process.'),
    'X01': ('each of the two functions on its own', 'stateless exploration under a controlled scheduler (a trace function which, before a given line of the package, lets another thread run until its end): every ordered pair of functions, model uses, saves and loads x every such point, the first times a line is executed.'),
    'H01': ('the same function in a new process where nothing else has been done', 'every ordered pair of nearly identical series x function, every function x edit x function, every model x ordered pair of series (also after other fits, uses and edits), every unit x ordered pair of instants.'),
    'D01': ('a direct count of the spacings', 'every sequence of spacings, every arrangement of nearly all different spacings, every history of edits and detections, with a watchdog.'),
    'D02': ('the period of the pattern generated', 'every period x repetitions x phase x amplitude x level x harmonic.'),
    'Z01': ('instants, values and indexes before the change; an independent calendar for the wall clock', 'every history of timezone changes, copies and edits, and every operation on both sides of the change.'),
    'G01': ('entries computed from the items', 'the page generated is executed in Node.js with a recording stand-in for the plotting library, for every kind of series x aggregation x timezone x values x indexes x marks.'),
}
try:
    from .design_more import MORE
    NOTES.update(MORE)
except ImportError:
    pass

LIMITS = '''## Not covered

* TensorFlow is not installed: for the LSTM models, what is given to the neural network and what is done with what it answers are checked, and not the network itself.
* `CustomDateTime`-like third party subclasses of the points and slots are covered only through the generic behaviour of the base classes.
* The interactive plots are checked up to what is handed to the plotting library, and not on the pixels.
* Unpickling a series is not documented and not supported by the library.
* Crash points inside the operating system (torn writes below a single file operation) are not enumerated: the library makes no durability promise, only that failing saves leave nothing loadable.
'''


def seeded():
    base = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(base)):
        meta = os.path.join(base, name, 'meta.json')
        if os.path.exists(meta):
            with open(meta) as f:
                yield name, json.load(f)


def main():
    out = [HEAD]
    for p in P:
        i = p['id']
        if not os.path.exists(os.path.join(ROOT, 'mc', 'checks', i.lower() + '.py')):
            out.append('### {} {}\n\nNo check: see not_applicable in MANIFEST.json.\n\n'.format(i, p['title']))
            continue
        m = importlib.import_module('mc.checks.' + i.lower())
        oracle, how = NOTES[i]
        out.append('### {} {}\n\n'.format(i, p['title']))
        out.append('* **Enumerated**: {}\n* **Oracle**: {}.\n* **Space**: {}.\n'.format(how, oracle, m.RULE))
        out.append('* **Bounds**: quick: {}; thorough: {}.\n'.format(m.BOUNDS['quick'], m.BOUNDS['thorough']))
        if m.ASSUMPTIONS:
            out.append('* **Assumptions**: {}.\n'.format('; '.join(m.ASSUMPTIONS)))
        out.append('\n')
    opened, fixed = [], []
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('open:'):
                opened.append(line[5:].strip())
            elif line.startswith('fixed:'):
                fixed.append(line[6:].strip())
    out.append('## Genuine defects found\n\nAll were shown on the real code by the checks. Those with a small and safe repair have been repaired with a `fix:` commit ({} entries):\n\n'.format(len(fixed)))
    out += ['* {}\n'.format(x) for x in fixed]
    out.append('\nThose whose repair would need a change of a format or of a documented design are recorded as known findings:\n\n')
    out += ['* {}\n'.format(x) for x in opened]
    out.append('\n## Planted bugs\n\nEach one is in `seeded/<id>`, and caught by the quick check of its property unless told otherwise.\n\n| Bug | Property | What it breaks | What it needs |\n|---|---|---|---|\n')
    for name, meta in seeded():
        out.append('| {} | {} | {} | {} |\n'.format(name, meta['property'] + (' (missed)' if meta.get('missed') else ''), meta['what_it_breaks'].replace('|', '/'), meta['needs'].replace('|', '/')))
    out.append('\nChecks strengthened because of planted bugs they missed at first: values of zero and negative ranges (O02, O03), fill values (T02), losses exactly at the limits (M05, M07), timezones of the items differing from that '
               'of the series (S02, M04, Z01), combinations of labels and resolutions (M01), items compared by label order (M01), partial last periods (D01, D02), windows differing in one value only (M09), results cached on edited or similar series (H01).\n\n')
    out.append(LIMITS)
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write(''.join(out))


main()

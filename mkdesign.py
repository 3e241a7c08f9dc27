"""writes DESIGN.md (run by hand; the text per property is kept here)"""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
HEAD = '''# Design

Contract-based deductive verification of melodist (/repo), property by property.

## 1. How a check decides

`python3 check.py <id>` (the command of every check) does the following on every run, from the
current working tree of /repo and from nothing else:

1. **Verifier (deciding step, `pyvc/` + `contracts/`)**.  The real source files of /repo are parsed,
   mechanically rewritten (see 2.) and executed *symbolically*: a contract (`contracts/cNN.py`, one
   `@item` per function/option) builds arbitrary inputs that satisfy the precondition, calls the real
   function and states the postcondition, the frame condition (`inputs unchanged`) and where needed
   lemmas and loop invariants.  Every path through the code is explored, every statement becomes an
   obligation of z3 (nonlinear ones additionally of cvc5).  The number of days, their gaps, the values, the tables, the random
   draws and the numeric parameters are symbolic: nothing is bounded except the 24 hours (12 months)
   of a day (year), which the code itself fixes.  Loops over days are cut at their head with an
   invariant that the engine infers from templates and then proves (`pyvc/loops.py`); calls across functions are
   either executed through, or replaced by the callee's contract where the callee is proved by
   another item (`L.patch`).
2. **Runtime contracts (`battery/`)**, run beside the verifier: the same contracts evaluated on the
   real code under CPython/numpy/pandas with seeded, generated inputs.  They (a) supply the replayable
   counterexample when an obligation fails and (b) are the *bounded stand-in* for properties or
   obligations that the verifier does not reach.  They are never counted as proved.

Verdict:

| verifier | runtime contracts | verdict |
|---|---|---|
| all obligations discharged | quiet | exit 0, level `proof` |
| any | violated | exit 1, replay file with the input |
| an obligation *refuted* (solver model) | quiet, also after a larger extra search | exit 1, `no-failing-input-found` |
| unknown / unsupported / out of time | quiet | exit 0, level `exploration`, evidence says `NOT PROVED ON THIS RUN` |

The last line is deliberate: a behaviour-preserving rewrite may use a library call the model lacks or
need a lemma nobody wrote.  Then no proof is claimed on that run and the stand-in decides.

Properties without a `contracts/cNN.py` are decided by the runtime contracts alone; MANIFEST.json
registers them with level `exploration` and says "bounded".

Replay: `/opt/venv/bin/python -m battery replay <file>` re-runs exactly the failing input on the real code;
for failed obligations the file holds the obligation's name, the path and the solver's output.

## 2. What is verified is the code that runs

`pyvc/load.py` reads the files of /repo on each run.  The rewriting changes, and only changes:

* float literals become exact rationals, `/` exact division (machine arithmetic is treated as real
  arithmetic - assumption of every proof),
* `for` loops and single-generator comprehensions go through `rt`, so that a loop with a symbolic
  number of iterations can be cut at its head (loops with a concrete number of iterations are executed),
* `and/or/not`, comparisons, `if` on symbolic values fork the path,
* bare `except:` becomes `except Exception`, string formatting of symbolic values yields a placeholder.

Nothing is dropped from the functions: `print` calls, docstrings, imports remain.  numpy, pandas and
scipy are replaced by modelled operations (`npshim`, `pdshim`, `vec`, `tables`, `carr`): each
modelled operation that an item actually uses is listed in the evidence (`trusted_base`) - they are
assumed contracts of the dependencies.  An operation that is not modelled raises `Unsupported`
and the item counts as not proved; nothing is guessed.  

Transcendental functions (exp, log, pow, cos, ...) are uninterpreted with axioms (signs, monotonicity,
special values, addition theorems where stated); random draws are arbitrary values of their range, so
a proof covers every outcome.

Vacuity guards: an item with no feasible path to its postcondition is reported as `vacuous` (not
proved); the collected facts are checked for contradiction; the pre-planted bugs show that obligations fail.

## 3. Properties
'''
P = {}
P['C01'] = '''Proved (`contracts/c01.py`). `disagg_prec(equal)` and `distribute_equally`: for an arbitrary day set and arbitrary, possibly missing totals, each hour is total/24 (or the value), missing iff the total is; the index covers exactly 24 h of the given days; no input is written. Reaches what tests cannot: all gap patterns and missing days.'''
P['C02'] = '''Proved. The loop over the boxes of a level is cut at its head: on each of the 161 paths through an arbitrary iteration the two values written are shown to be non-negative and to sum to the value read, the position counter is shown to advance by two. This summary carries the sums through the five levels; the split into quarter hours and the differences of the cumulative sum (recursion of the sum as axiom) are exact, so the 24 hours of an arbitrary day add up to its total by linear arithmetic.'''
P['C03'] = '''Proved. Loop summaries as for C02 through 9, 10 and 11 levels; the sub-daily index and the resampling to five minutes are modelled slot by slot, so the 288 sums of an arbitrary day partition its 512, 1024 or 2048 values.'''
P['C04'] = '''Proved. The counting loop of `aggregate_precipitation` is summarised by all linear relations between its counters that every path preserves (the null space of the increments, computed exactly from the paths of the real body, which also shows that every box with rain falls into one weight class and one branching class). After the division the three branching and the seven weight entries are shown known, not negative and summing to one on each of the paths (default tables, default weights, derived). `build_casc` and `calc_precipitation_stats` are then verified against that contract: each level receives known, non-negative values (missing observations as zeros) and at least four rows; the averaged table is the mean over levels weighted with the number of rows; the per-level tables survive the weighting unchanged. The shortest season is 64 hours: below, the fifth level has a single box and the real function raises IndexError, so the property says so.'''
P['C05'] = '''Proved. `disagg_prec(masterstation)` / `precip_master_station`: the loop over the days is cut (each iteration writes its own day only, proved); each hour is total * master hour / master total of the same day, uniform or zero on dry days, and a derivation chain gives the sum. The master record contains every day of the series (a day that is absent raises KeyError).'''
P['C06'] = '''Proved. `hourly_index`, `fmin_index`, `sub_level_index` (levels 9..11), with and without gap filling, on an arbitrary day set.'''
P['C07'] = '''Proved. For an arbitrary day the hourly value is shown to be mean plus half difference of the selected extremes times a cosine; bounds and exact attainment of the extremes follow by lemmas on products with numbers within one. Polar nights: the series before the interpolation is characterised hour by hour (two readings per dark day, missing hours towards the dark), the last value before and the first value after each hour are derived step by step, linear interpolation is assumed to lie between them. Fixed times only for the dark days; other combinations are bounded (runtime contracts).'''
P['C08'] = '''Proved. Each hour is shown to be the daily mean plus half the range times a cosine; opposite hours cancel, so the mean is kept; the cosine is one at the assumed hour and minus one half a day apart, so the range is met exactly. Records with polar nights: the replaced hours are shown to lie in or next to the dark only.'''
P['C09'] = '''Proved. Both mean-course methods for arbitrary tables (month x hour) and day sets: hours at the course extremes have the daily extremes, values stay in range; mean method: each hour is mean + range*(deviation of the course), sum lemma gives the daily mean.'''
P['C10'] = '''Proved (`contracts/hum.py`). All methods of `disaggregate_humidity` incl. preserve_daily_mean: every value 0..100 or missing. exp uninterpreted with monotonicity; temperatures and dew points above 31 K.'''
P['C11'] = '''Proved. Daily mean preserved if the corrected values stay inside 0..100 and days without observed mean left alone (all methods); min_max line and its end points; saturation exactly at the dew point (minimal, regression; linear variation with kr 6 and 12, the vapour pressure entering by its contract, C12).'''
P['C12'] = '''Proved, on series and on arrays. Missing iff inputs missing, positive, proportional to humidity, strictly increasing on either side of 0 degrees C, dew point of saturated air, dew point <= temperature. exp/log uninterpreted with monotonicity and inverse axioms; temperatures above 31 K.'''
P['C13'] = '''Proved. equal/cosine/random: values, mean (24 cosines cancel), sign and proportionality for every outcome of the draws; a draw of exactly 0 is left out (probability 2**-53).'''
P['C14'] = '''Proved (methods pot_rad and mean_course). Per hour: proportional apart from values below 0.01, zero without potential radiation, missing iff the day is; the 24 hours average to the daily value within 0.01 (lemma chain); polar-night days are 0.'''
P['C15'] = '''Proved. Defined, non-negative, at most 80 % of the distance-corrected solar constant for every date, place, slope and cloud fraction; zero below the horizon on flat terrain; direct + diffuse = total. Trigonometric functions by axioms, pi symbolic; the stated times are the 24 full hours.'''
P['C16'] = '''Proved. `angstroem` and `bristow_campbell` equal their formulas with the parameters of the month (scalar and monthly tables), the disaggregation passes them exactly the right arguments (callee replaced by its contract) and distributes the result. The fitting of parameters is outside the property.'''
P['C17'] = '''Proved. Defined, day length 0..24 and sunset-sunrise up to a day, noon midway, polar day and night, opposite latitudes, independence of longitude/zone, one-hour shifts.'''
P['C18'] = '''Proved. `daily_from_hourly` on any set of hourly rows: each output is the mean (deviations sum to zero), minimum, maximum or sum over exactly the present, non-missing hours of the day, for all variables together, each alone, and the columns for all 63 selections.'''
P['C19'] = '''Proved. `calculate_mean_daily_course_by_month` and `calculate_month_hour_precip_mean`: each table entry is the aggregate whose members are exactly the non-missing observations of month, hour (and wet/dry class of the calendar day); aggregates are compared extensionally (labels, keys, values at an arbitrary label). Normalised course: missing iff no observation, within 0..1, 0/1 at the extremes, order of all pairs of hours, some hour 0 and some hour 1.'''
P['C20'] = '''Bounded stand-in: round trip of random statistics, partial tables.'''
P['C21'] = '''Proved. Inductive data invariant over histories. State: location (each coordinate unset or an arbitrary number), statistics, daily data with arbitrary days, results with arbitrary values. For each operation (constructor, the five assignments, the five disaggregations with symbolic method names) on each such state: the invariants of the statement hold afterwards, everything not concerned is unchanged, and every attribute equals that of a freshly built station with the same visible content - so the new state is again of the described form and the argument covers sequences of any length. get_sun_times enters as a function of index and location (C17, C22), the disaggregation functions as functions that return arbitrary hourly values for the days given (C05-C16).'''
P['C22'] = '''Bounded stand-in for the functions without proof; every proved item of C01, C06, C09..C17 additionally discharges its frame obligation `inputs unchanged`.'''
P['C23'] = '''Proved. The counter is summarised as the sum of its increments over the iterations; for an arbitrary iteration the increment is shown to be one exactly if the distance to the row before differs from the time step, and every pair of rows is shown to be visited (equality of sums of equal terms).'''
P['C24'] = '''Proved. Each of the two loops is summarised by its first iteration with the break condition (and the absence of the condition before it); for an arbitrary row it is shown that the row is kept if it lies between a row at the first and a row at the last hour, and only then; values and time stamps of kept rows are unchanged.'''
P['C25'] = '''Bounded stand-in: SMET round trips in a scratch directory.'''
P['C26'] = '''Proved. The function that reads one file for any number of records: one row per record, time, unit and missing entries of each column. The parser of the text (read_csv with the options of the format) is assumed; other options are not decided. The function that reads a directory is checked against that contract for 0 to 3 files only.'''
P['C27'] = '''Proved. For each of the five functions (and the station methods) the method name is a symbolic string different from every documented name; the obligation is that each path ends in an error raised by the package (or by the language in a statement of the package: unbound variable, use of None). Cascade: list length symbolic, fewer than two days, six kinds of wrong types; humidity: symbolic period other than 6 and 12; every subset of missing parameters. Station assignment: index of symbolic resolution other than day, unsorted index, an arbitrary day with an arbitrary value below 200 K among otherwise arbitrary data (regular or with absent days), on stations with and without location and previous data; afterwards everything visible of the station equals what was there before. Wrong types cannot be quantified over: six representatives stand for them.'''
P['C28'] = '''Proved. prepare_interpolation_data on gap-free days with arbitrary (also missing) readings: for each hour of a generic day the value is the reading of the column assigned to that hour, or missing; index = all hours of the days. Station.interpolate on regular data and on data with absent days keeps every reading at its hour; pandas' interpolate enters as: values that are present are kept. The table of hours is a concrete dictionary, so the obligations are discharged per table: every single hour, all 24 (both orders), three readings in both orders and six tables chosen by the seed.'''
P['C29'] = '''Proved. seasonal_subset with n different symbolic months, n = 1..12 and 'all', on daily and hourly series and tables: an entry is in the result iff it is in the input and its month is one of them, with the same value, in time order (concatenation loses order in the model until sort_index). Seasonal cascade: Station.disaggregate_precipitation with seasonal_subset and disagg_prec replaced by their contracts (first part; C02), an arbitrary assignment of months to k = 1, 2, 4 seasons: every day of a season with a second day gets the 24 hours computed with the statistics of its own season, summing to the day's total.'''
P['C31'] = '''Bounded stand-in: the tables are compared with an independent count (numpy) on generated records of 640 to 8000 hours. Totals are multiples of 1/16 so that they are exact; either side is accepted for totals equal to the threshold. Not brought under contract: the percentile of an unbounded array and counting over it.'''
P['C32'] = '''Bounded stand-in: statistics with probabilities 0 and 1 make the random cascade deterministic, the hourly result is compared with an independent cascade. Daily series of 2 to 40 days. Draws that come within 1e-7 of a threshold are skipped.'''
P['C33'] = '''Bounded stand-in: comparison with Almanac formulas at random places and days; the tolerances are about 1.3 times the largest deviation measured over 1970-2049. Transcendental functions with numeric tolerances are out of reach of the contracts (they are uninterpreted there).'''
P['C34'] = '''Bounded stand-in: recomputed day by day from the data and get_sun_times.'''
P['C35'] = '''Bounded stand-in: synthetic data from known parameters, fitted again. Least-squares fits of scipy have no contract here.'''
P['C30'] = '''Bounded stand-in: generated daily/hourly DWD files.'''
TAIL = '''
## 4. Planted changes

%d planted changes in `seeded/`, each confirmed in a scratch copy (builds, stable tests pass, demo fails
with it and passes without).  Caught by the check of their property:

| id | property | what it breaks | verifier | runtime contracts |
|---|---|---|---|---|
%s

"not discharged": the changed code no longer satisfies (or leaves the reach of) the proof, so the run is
not a proof; the runtime contracts then found the failing input.

## 5. False alarms corrected

* C17: exact equality of the day length with 24 h was too strong for floating point; tolerance 1e-9 in the runtime contract (the proof is over the reals).
* C29: the runtime contract forced a draw of probability zero; such draws are left out.
* C13: draws of exactly 0, whose logarithm is infinite, are left out.
* Structural checks of the verifier (argument counts of a stub) used to count as refutation; they now are `unsupported`.

## 6. Findings

22 defects found on the original tree were fixed in separate `fix:` commits of /repo; see
`known_findings.txt`.  Known and not claimed (documented limits of the properties): monthly radiation
statistics need data in each month; daily precipitation sum of a day with only missing hours is 0 in
`daily_from_hourly` (pandas sum); `write_smet` adds entries to the metadata dict of the caller; 5-minute
output over gaps of absent days is filled with zeros by `resample`; cascade with shift != 0.

## 7. Limits

* Real arithmetic instead of floating point; overflow and rounding are outside the proofs (the runtime contracts run with floats).
* Assumed library contracts are listed per run in the evidence; they are stated for the call patterns of the repository.
* pandas index alignment is modelled on labels (day, slot); time zones, DST and non-datetime indices are out of scope.
'''
# what the verifier says about the planted changes ('-': property without proof)
PV = {"b01": "refuted", "b06": "refuted", "b08": "not discharged", "b05": "not discharged", "b07": "not discharged",
      "b25": "not discharged", "b16": "not discharged", "b20": "not discharged", "b09": "not discharged",
      "b03": "not discharged", "b10": "not discharged", "b04": "not discharged",
      "b02": "not discharged", "b24": "not discharged", "b13": "not discharged", "b21": "not discharged",
      "b14": "refuted", "b26": "refuted", "b27": "refuted", "b28": "not discharged", "b29": "not discharged", "b30": "outside the supported constructs",
      "b12": "refuted", "b17": "refuted", "b18": "refuted", "b23": "refuted"}
rows=[]
for d in sorted(glob.glob(HERE + '/seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    rows.append('| %s | %s | %s | %s | caught |' % (b, m['property'], m['what_it_breaks'], PV.get(b,'-')))
props=[json.loads(l) for l in open(HERE + '/properties.jsonl')]
out=HEAD+'\n'+'\n'.join('* **%s** %s. %s' % (q['id'], q['title'], P[q['id']]) for q in props)+'\n'+TAIL%(len(rows),'\n'.join(rows))
open(HERE + '/DESIGN.md','w').write(out)

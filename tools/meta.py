"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the outputs are committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = 'ta-lib-rt/c/src/ta_func/'; A = 'ta-lib-rt/c/src/ta_abstract/'; CM = 'ta-lib-rt/c/src/ta_common/'; I = 'ta-lib-rt/c/include/'
ALLF = F + 'ta_*.c'
PR = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    d = {'id': id, 'title': title, 'statement': ' '.join(statement.split()), 'quantifier': {'over': over, 'text': ' '.join(text.split())}, 'why_tests_cant': ' '.join(why.split()),
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}}
    assert len(title) <= 80, (id, len(title)); PR.append(d)
INP = 'every one of the 165 functions, every legal parameter combination, every range [startIdx,endIdx] and every price series'
p('C01', 'No memory error or undefined behaviour for any valid call',
  '''Called with legal parameters and arrays that hold exactly the bars up to endIdx and exactly the outputs the call may produce, no batch, single-precision, lookback or streaming function reads or writes
  outside the caller's arrays or its own storage, and none executes undefined behaviour (out-of-range array index, overflowing signed arithmetic, float-to-int conversion out of range, misaligned or null access).
  This holds also when the data contains NaN, infinities, denormals or huge values, and bars older than startIdx minus the lookback are never read (Metastock compatibility excepted, where averages are seeded with the first bar of the series).''',
  ['inputs', 'configurations'], INP + ', hostile floating-point values included', '''ta_regtest calls the functions on one 252-bar series with a few parameter sets and without sanitizers; an off-by-one at the edge of an array
  goes unnoticed when the neighbouring memory is harmless.''', [ALLF, CM + 'ta_memory.h', F + 'ta_utility.h'],
  [('bounds arithmetic around lookback, startIdx and trailing indexes', ALLF), ('CIRCBUF and HILBERT macros', CM + 'ta_memory.h'), ('streaming ring memory', 'TA_*_State functions in ' + ALLF)], ['TA_<F>', 'TA_S_<F>', 'TA_<F>_StateInit/_State/_BatchState/_StateFree'])
p('C02', 'Lookback and output range contract of every function',
  '''For every function and range, a successful call reports outBegIdx = max(startIdx, lookback) and outNBElement = endIdx - outBegIdx + 1 when that is positive, and zero elements otherwise, where lookback is the
  value returned by the function's _Lookback for the same parameters. Exactly outNBElement elements of every output are written, all of them, and nothing beyond.''',
  ['inputs', 'configurations'], INP, 'The regression tests check some begIdx/nbElement pairs for a handful of ranges per function; the contract has to hold for each range, also the ones shorter than the lookback or starting in its middle.',
  [ALLF], [('lookback formulas', 'TA_<F>_Lookback in ' + ALLF), ('range adjustment at the top of each function', ALLF)], ['outBegIdx', 'outNBElement', 'output arrays'])
p('C03', 'Outputs depend only on the bars they may depend on',
  '''An output at bar t never depends on bars after t: truncating the series or changing later bars leaves it identical. In the default compatibility mode, bars older than startIdx minus the lookback never influence any output, so replacing them or dropping them (with the
  range shifted) gives the same outputs. For functions without recursion (no unstable period, no running state), evaluating any sub-range gives the values of the full evaluation at those bars.''',
  ['inputs', 'configurations'], INP, 'Tests compare fixed expected values at a few indexes of one series; look-ahead or dependence on data outside the window shows only when the rest of the series changes.',
  [ALLF], [('window bookkeeping (trailingIdx, lookbackTotal)', ALLF)], ['output arrays'])
p('C04', 'Output arrays may be the input arrays',
  '''Passing an input array as an output array (any one-to-one assignment of real outputs to inputs of the call) gives exactly the results that separate arrays give.''',
  ['inputs', 'configurations'], INP + ', every assignment of outputs onto inputs', 'ta_regtest overlaps a few buffers for its own data and ranges; which element is overwritten before it is read depends on parameters and ranges.',
  [ALLF], [('temporary buffers when input and output are the same', 'ARRAY_ALLOC users such as ta_STOCH.c, ta_BBANDS.c, ta_DEMA.c'), ('read-before-write order in the loops', ALLF)], ['output arrays'])
p('C05', 'Single-precision entry points agree with the double-precision ones',
  '''For the same input values (all representable in single precision) and parameters, the TA_S_ function returns the same code, range and outputs as its double-precision counterpart.''',
  ['inputs', 'configurations'], INP + ' representable in float', 'The TA_S_ copies are generated code that the regression suite only touches for range checks; they can drift from the double version in any branch.',
  [ALLF], [('generated TA_S_ copies', 'GENCODE sections of ' + ALLF)], ['TA_S_<F>', 'TA_<F>'])
p('C06', 'Streaming gives the batch results bar by bar',
  '''Feeding a series bar by bar to the streaming form returns TA_NEED_MORE_DATA for exactly the first lookback bars and TA_SUCCESS from then on, and each output equals (up to rounding) the output of the batch function over the series from its first
  bar. This holds for all parameters, unstable periods, candle settings and the Metastock mode (MACDEXT excepted there), the library settings being left unchanged during the stream.''',
  ['inputs', 'histories', 'configurations'], INP + ', fed from the first bar, with any library-wide settings', 'The regression suite compares the streaming form on its one series with few parameters; minimum periods, defaults, unstable periods, MA types and flat or degenerate data take other paths.',
  [ALLF], [('ring memory and counters of the state', 'TA_<F>_State in ' + ALLF), ('nested states', 'ta_MA.c, ta_MACD.c, ta_STOCH.c and others')], ['TA_<F>_State', 'TA_<F>'])
p('C07', 'Feeding a stream in blocks equals feeding it bar by bar',
  '''For every way of cutting a series into blocks (empty and one-bar blocks included, mixed with single steps), the block-feeding function leaves the same state and produces the same outputs as single steps, element i of a block being the output of its
  bar i, and reports the range of the block and the return code of its last bar. Elements for which more data is needed are NaN (INT_MAX for integer outputs).''',
  ['inputs', 'histories'], INP + ' and every partition into blocks', 'No test mixes block sizes; only whole-series calls are made.', [ALLF], [('batch loop over the step function', 'TA_<F>_BatchState in ' + ALLF)], ['TA_<F>_BatchState'])
p('C08', 'Saving and loading a stream at any bar is transparent',
  '''A stream saved after any number of bars (also none) and loaded into a new handle continues with bit-identical outputs and return codes, while the saved stream itself is not disturbed by saving. Loading consumes exactly the bytes that saving wrote, so that
  several streams of any functions can be stored one after another in one file.''',
  ['inputs', 'histories', 'crash_points'], INP + ', every save point', 'The tests save each state once, at one point of one series.', [ALLF, CM + 'ta_memory.h'], [('field-wise save and load, ring memory, nested states', 'TA_<F>_StateSave/_StateLoad in ' + ALLF)], ['TA_<F>_StateSave', 'TA_<F>_StateLoad'])
p('C09', 'Truncated files and short writes never go unnoticed',
  '''Loading a saved state from a file cut at any byte returns TA_IO_FAILED, and saving to a stream that cannot take all bytes returns TA_IO_FAILED, and so does either when a single read or write fails and the device works again afterwards: never success and never a crash; what was built so far can be freed normally. Loading into a handle that already holds a state is
  refused with TA_BAD_PARAM and leaves that state working.''',
  ['inputs', 'crash_points', 'fault_sequences'], 'every function, every saved state, every truncation length, every write failure position and every single failed read or write', 'The tests never fail an I/O operation.', [ALLF, CM + 'ta_memory.h'], [('io_res checks after each fread/fwrite', 'TA_<F>_StateSave/_StateLoad in ' + ALLF)], ['TA_<F>_StateSave', 'TA_<F>_StateLoad'])
p('C10', 'Streams are independent and calls may run concurrently',
  '''Any number of streams of any functions can be stepped in any interleaving, on one thread or several (each stream used by one thread at a time), and each gives the outputs it gives alone. Batch, streaming, lookback and abstract calls running concurrently on different threads, while no
  thread changes library settings, give their single-threaded results and have no data race.''',
  ['schedules', 'histories', 'inputs'], 'every interleaving of streams and every thread schedule', 'All tests are single-threaded and drive one stream at a time; hidden static storage shows only under interleaving.', [ALLF, CM + 'ta_global.c', A + 'ta_abstract.c'],
  [('no static mutable storage', ALLF), ('read-only TA_Globals after initialisation', CM + 'ta_global.c')], ['all public functions'])
p('C11', 'No leaks; a failed allocation is reported, not crashed on',
  '''Every block a call allocates is released by the time the matching free (or the batch call itself) returns, whether the call succeeds or fails. If any single memory allocation fails, the call returns TA_ALLOC_ERR without crashing, and everything can still be freed once, with a NULL handle accepted by the state-freeing functions.''',
  ['fault_sequences', 'inputs', 'histories'], 'every function and parameter set, every allocation of the call failing', 'Tests never fail an allocation and never count blocks.', [ALLF, A + 'ta_abstract.c', CM + 'ta_memory.h', CM + 'ta_global.c'], [('allocation checks and frees on every exit', ALLF)], ['return codes', 'allocator'])
p('C12', 'Invalid arguments are rejected and defaults substituted everywhere',
  '''A batch, single-precision, lookback or streaming-initialisation call rejects exactly the calls whose optional parameter lies outside its documented range (TA_BAD_PARAM, lookback -1), or whose startIdx is negative (TA_OUT_OF_RANGE_START_INDEX) or endIdx negative or below startIdx (TA_OUT_OF_RANGE_END_INDEX), or with a NULL input
  or output array (TA_BAD_PARAM); a rejected call writes no output element, sets no handle and leaves other state alone. A single step whose value is due refuses a NULL output, and streaming calls refuse a NULL handle, and block feeding NULL arrays, the last two without disturbing the stream. TA_INTEGER_DEFAULT and TA_REAL_DEFAULT behave exactly like passing the documented default.''',
  ['inputs', 'configurations'], 'every function, every parameter at and around its limits, every combination of invalid arguments', 'The suite checks a fixed list of out-of-range values per parameter in the batch form only.', [ALLF, A + 'ta_def_ui.c', A + 'tables/*.c'], [('parameter checks at the top of each function', 'GENCODE sections of ' + ALLF)], ['return codes', 'output arrays'])
p('C13', 'A call through the abstract interface equals the direct call',
  '''For every function, setting inputs, optional parameters and outputs through a parameter holder and calling it gives bit-identical results, ranges, return codes and lookbacks to the direct call, for batch and for streaming (init, step, block, save, load, free), in whatever order the parameters are set, when re-set,
  and when optional parameters are left at their defaults.''',
  ['inputs', 'histories', 'configurations'], INP + ', every order of setting parameters', 'test_abstract.c only checks that calls through the interface succeed on fixed data, not their values for varied parameters.', [A + 'ta_abstract.c', A + 'ta_frame.c', A + 'frames/*', A + 'tables/*.c'], [('generated frames that marshal parameters', A + 'ta_frame.c'), ('parameter holder', A + 'ta_abstract.c')], ['TA_CallFunc', 'TA_GetLookback', 'TA_CallFuncState*'])
p('C14', 'Function metadata is complete, consistent and true',
  '''Groups, function tables, handles, descriptions, parameter and state-field counts, types, ranges, defaults, value lists and flags of the abstract interface agree with each other, with the C prototypes and state structures of the public headers and with the XML description returned at run time, and every function is reachable by name and by group exactly once. Metadata tells the truth about behaviour: default and range are those
  the function itself applies, the unstable-period flag and id are those of a function whose outputs react to that period, candlestick flagged functions output only pattern codes, and input flags name the prices used.''',
  ['configurations', 'inputs'], 'every function, parameter, group and metadata field', 'test_abstract.c checks a few entries.', [A + 'tables/*.c', A + 'ta_group_idx.c', A + 'ta_def_ui.c', A + 'ta_abstract.c', 'ta-lib-rt/ta_func_api.xml'], [('hand-written tables', A + 'tables/*.c'), ('generated group index', A + 'ta_group_idx.c'), ('generated XML array', 'ta-lib-rt/c/src/tools/gen_code/gen_code.c')], ['TA_GetFuncInfo', 'TA_Get*ParameterInfo', 'TA_FunctionDescriptionXML', 'TA_GroupTableAlloc', 'TA_FuncTableAlloc'])
p('C15', 'The abstract interface withstands misuse and any call sequence',
  '''Any sequence of parameter-holder calls, with wrong types, wrong indexes, NULL pointers, unknown names or missing parameters, is answered with the documented error code and without a crash, changes nothing else, and a later correct completion of the same holder works. A call with an input or output missing is refused with TA_INPUT_NOT_ALL_INITIALIZE or TA_OUTPUT_NOT_ALL_INITIALIZE; several holders are independent of each other, and a holder's state can be saved, reloaded, taken out or replaced through the interface without disturbing the stream.''',
  ['histories', 'inputs'], 'every sequence of abstract-interface calls on several holders', 'Only straight-line correct use is tested.', [A + 'ta_abstract.c'], [('holder bookkeeping bitmaps and magic numbers', A + 'ta_abstract.c')], ['TA_ParamHolder*', 'TA_SetInputParam*', 'TA_SetOptInputParam*', 'TA_SetOutputParam*', 'TA_CallFunc'])
p('C16', 'Unstable period: warm-up bars are skipped, nothing else changes',
  '''Setting an unstable period u for an id lengthens the lookback of the functions that use that id by exactly u (by u per nested use for functions built on them, such as DEMA 2u or TEMA 3u) and changes neither lookback nor output of any other function. For the functions with a
  single use of the id, the outputs from bar s are those computed without an unstable period from bar s-u on. Set and get agree for every id, the ALL id sets every one, and invalid ids are refused.''',
  ['configurations', 'inputs', 'histories'], 'every id, every period, every function and range', 'The suite varies the unstable period for single functions on fixed data, and does not check the other functions or the value at each bar.', [F + 'ta_utility.c', CM + 'ta_global.c', ALLF], [('TA_GLOBALS_UNSTABLE_PERIOD in lookbacks and loops', ALLF)], ['TA_SetUnstablePeriod', 'TA_GetUnstablePeriod', '_Lookback', 'outputs'])
p('C17', 'Candlestick functions recognise exactly the documented patterns',
  '''Each candlestick function outputs at every bar the code (0, +-100 or another documented value) that its documented pattern definition gives, evaluated over the averages defined by the current candle settings, for all candle settings, penetration values and bars, and its lookback covers exactly the bars the definition refers to.
  Changing a candle setting takes effect on the next call and restoring gives the documented defaults.''',
  ['inputs', 'configurations'], 'all 61 pattern functions, all OHLC series, settings and penetration values', 'The regression series triggers many of the patterns never or once.', [F + 'ta_CDL*.c', F + 'ta_utility.h', CM + 'ta_global.c'], [('candle average/range macros', F + 'ta_utility.h'), ('period totals in each function', F + 'ta_CDL*.c'), ('candle settings', CM + 'ta_global.c')], ['TA_CDL*', 'TA_SetCandleSettings', 'TA_RestoreCandleDefaultSettings'])
p('C18', 'Moving averages and overlap studies equal their definitions',
  '''Each moving average and overlap study (SMA, EMA, WMA, WLMA, DEMA, TEMA, TRIMA, KAMA, MAMA, T3, MA, MAVP, BBANDS, ACCBANDS, MIDPOINT, MIDPRICE, SAR, SAREXT, HT_TRENDLINE) outputs at each bar the value of its mathematical definition over the documented window and seed, with the documented lookback, for every period, factor, deviation and type.''',
  ['inputs', 'configurations'], INP, 'Expected values of the regression tests cover a few indexes, periods and one series.', [F + 'ta_SMA.c', F + 'ta_EMA.c', F + 'ta_BBANDS.c', F + 'ta_SAR.c', F + 'ta_MA.c', F + 'ta_KAMA.c'], [('incremental update of windows', ALLF)], ['TA_<F> outputs'])
p('C19', 'Momentum and volume indicators equal their definitions',
  '''Each momentum and volume indicator (RSI, CMO, MFI, ROC family, MOM, MACD family, APO, PPO, STOCH family, WILLR, CCI, ADX/DX/DI/DM family, AROON family, BOP, TRIX, ULTOSC, AD, ADOSC, OBV, NVI, PVI and the like) outputs at each bar the value of its documented definition, including the documented treatment of zero denominators, for every parameter.''',
  ['inputs', 'configurations'], INP, 'Expected values of the regression tests cover a few indexes, periods and one series; divisions by zero are not reached.', [F + 'ta_RSI.c', F + 'ta_ADX.c', F + 'ta_MACD.c', F + 'ta_STOCH.c', F + 'ta_MFI.c', F + 'ta_OBV.c'], [('incremental sums and Wilder smoothing', ALLF)], ['TA_<F> outputs'])
p('C20', 'Math, statistic, price, volatility and cycle functions equal definitions',
  '''Each arithmetic, transform, window (SUM, MAX, MIN, index forms), statistic (VAR, STDDEV, CORREL, BETA, linear regressions, TSF, AVGDEV), price transform, volatility (TRANGE, ATR, NATR, rolling measures) and Hilbert-transform cycle function outputs the value of its definition at each bar, for every parameter; index outputs name a bar inside the window that holds the extreme value.''',
  ['inputs', 'configurations'], INP, 'Expected values of the regression tests cover a few indexes, periods and one series.', [F + 'ta_MAX.c', F + 'ta_VAR.c', F + 'ta_CORREL.c', F + 'ta_LINEARREG.c', F + 'ta_ATR.c', F + 'ta_HT_DCPERIOD.c', 'ta-lib-rt/c/src/ta_func/*.c'], [('sliding extremum with cached index', F + 'ta_MAX.c and relatives'), ('running sums', ALLF)], ['TA_<F> outputs'])
p('C21', 'Documented output bounds, identities and scaling laws',
  '''Bounded oscillators stay within their documented range (RSI, MFI, STOCH, ADX and others in 0..100, WILLR in -100..0, CMO and AROONOSC in -100..100, CORREL in -1..1), bands and extremes are ordered (upper >= middle >= lower, MIN <= MA <= MAX), and functions that compute the same quantity agree (for example MACD with MACDFIX and MACDEXT, STDDEV with VAR, MINMAX with MIN and MAX, MA with the named average).
  Multiplying all prices by a power of two, or volumes likewise, scales or preserves every output exactly as its unit demands.''',
  ['inputs', 'configurations'], INP, 'Relations between functions and between runs are not tested at all.', [ALLF], [('clamping and zero guards', ALLF)], ['TA_<F> outputs'])
p('C22', 'Results are a pure function of arguments and settings',
  '''Calling a function twice with equal arguments and settings gives bit-identical results whatever other calls happened in between, whatever memory contained before, and wherever the arrays lie; input arrays, parameter arrays and settings are never modified, and no result depends on uninitialised memory.''',
  ['histories', 'inputs'], 'every function, every history of earlier calls and memory contents', 'Each test makes one call in a fresh process state and compares rounded values.', [ALLF, CM + 'ta_memory.h'], [('initialisation of locals, buffers and states', ALLF)], ['outputs', 'inputs'])
p('C23', 'Library-wide settings behave as one consistent register file',
  '''After any sequence of initialise, shutdown, set and restore calls, each setting (compatibility mode, unstable periods, candle settings) reads back, and acts, as the last call that addressed it says, with documented defaults after initialisation; unknown unstable-period ids and candle setting types are refused without effect. Metastock mode changes only the functions documented for it
  (those built on EMA, WLMA, RSI and CMO), every return code has a non-empty description with a distinct symbolic name per defined code, and the version parts form the version string.''',
  ['histories', 'configurations'], 'every sequence of global calls', 'The suite resets settings around each test and never checks sequences or bystanders.', [CM + 'ta_global.c', CM + 'ta_retcode.c', CM + 'ta_version.c', F + 'ta_utility.c'], [('TA_Globals', CM + 'ta_global.c')], ['TA_Set*/TA_Get*', 'TA_SetRetCodeInfo', 'TA_GetVersion*'])
p('C24', 'The code generator reproduces the library and applies edited metadata',
  '''Running gen_code on the source tree succeeds without memory errors, settles within two runs (a further run changes nothing), and what it writes (function shells with their argument checks, single-precision copies, streaming entry points, ta_func.h, call frames,
  group tables, return codes, XML description, function list, SWIG interface) builds into a library that behaves exactly as the one built from the tree as committed. After limits, defaults, names, hints or flags are edited in the metadata
  tables, the regenerated functions enforce exactly the edited limits and defaults wherever these checks are generated and the XML description says what the tables say; a function without a source file, and a function newly defined in the tables, gets a skeleton that compiles, refuses invalid arguments and can be streamed, saved and loaded.''',
  ['inputs', 'configurations', 'histories'], 'every function, every call of the two libraries, every edit of the tables', 'No test runs the generator as a whole; a committed file that has drifted from what the generator writes, or a generator that writes something else, only shows at the next regeneration.',
  ['ta-lib-rt/c/src/tools/gen_code/*.c', A + 'tables/*.c', A + 'ta_def_ui.c', A + 'templates/*', F + 'ta_*.c'], [('GENCODE sections and TA_S_ copies', 'doFuncFile, writeFuncFile in ta-lib-rt/c/src/tools/gen_code/gen_code.c'), ('argument checks', 'printOptInputValidation in gen_code.c'), ('frames', 'printFrame in gen_code.c')], ['exit status and files of gen_code', 'public API of the rebuilt library'])
TECH = {
 'C24': 'sanitized generator runs; differential trace monitor between committed and regenerated library; metadata-driven monitor under edited tables',
 'C01': 'AddressSanitizer + UBSan over generated hostile workloads with exact-size buffers', 'C02': 'online monitor with guard zones around outputs', 'C03': 'metamorphic run-pair monitor', 'C04': 'metamorphic aliasing monitor', 'C05': 'differential monitor double/float',
 'C06': 'differential trace monitor stream/batch', 'C07': 'differential trace monitor over random block partitions', 'C08': 'save/restore differential monitor at random cut points', 'C09': 'exhaustive truncation, short-write and single-I/O-error injection (plain and ASan)',
 'C10': 'ThreadSanitizer plus serial-replay comparison under interleaving stress', 'C11': 'allocator-shim leak monitor with exhaustive single allocation-fault injection (plain and ASan/LSan)', 'C12': 'argument-space monitor against a rejection oracle', 'C13': 'differential monitor abstract/direct call',
 'C14': 'run-time metadata monitor against prototypes, XML and observed behaviour', 'C15': 'random call sequences against a holder model, under ASan', 'C16': 'metamorphic monitor over unstable-period settings', 'C17': 'reference-model monitor over synthetic candles', 'C18': 'reference-model monitor (definitional O(n*p) evaluation)',
 'C19': 'reference-model monitor (definitional O(n*p) evaluation)', 'C20': 'reference-model monitor (definitional O(n*p) evaluation)', 'C21': 'invariant, identity and scaling monitors', 'C22': 'MemorySanitizer plus repeat-call and heap-pattern comparison', 'C23': 'random global-call sequences against a register model'}
FAULT = {'C09', 'C11'}
NA = {}
def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for d in PR: f.write(json.dumps(d) + '\n')
    checks = []
    for d in PR:
        i = d['id']
        if i in PLAN:
            c = PLAN[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i, 'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i],
                           'level': c['level'], 'level_note': c.get('note') or 'Held on every execution observed (real code, generated workload, oracle per execution); says nothing about inputs not generated. Counts of what was observed are in the evidence file. Trusts the compiler, the generators and the oracle in src/.'})
    na = [{'property': d['id'], 'reason': NA.get(d['id'], 'check not built yet')} for d in PR if d['id'] not in PLAN]
    m = {'version': 1, 'setup_cmd': 'python3 tools/build.py plain asan', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks compile /repo/ta-lib-rt/c from its working tree into /verif/build with their own flags and observe it through its public API, a link-time allocator shim and sanitizers.'}
    with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()

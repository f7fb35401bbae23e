"""What each property's check runs: stages (sanitizer variant, monitor, case counts), minimum observations, evidence rule."""
PLAN = {}
def P(id, rule, stages, need=None, assumptions=(), level='exploration'):
    PLAN[id] = {'rule': rule, 'stages': stages, 'need': need or {}, 'assumptions': list(assumptions), 'level': level}
def S(variant, quick, thorough, **k): return dict(variant=variant, quick=quick, thorough=thorough, **k)
SERIES = ('Price series from 13 generators (random walks, constants, trends, alternation, spikes, flat bars, synthetic candles, zero volume, steps, '
          'tiny/large magnitudes, cycles) on dyadic, cent or continuous grids; optional parameters drawn from their documented ranges biased to the minimum, the '
          'default and the default sentinels; ranges biased to the boundaries around the lookback. ')
P('C01', SERIES + '30% of the series also carry NaN, infinities, denormals and +-1e308. Inputs end exactly at endIdx, outputs have exactly the promised size, bars older than startIdx-lookback are poisoned. Non-trivial: at least one output bar; distinct by function, parameters, range and last bar.',
  [S('asan', 32000, 200000, name='ASan+UBSan')], {'poisoned_prefix_runs': 1000, 'hostile_values': 1000, 'stream_steps': 10000})
P('C02', SERIES + 'Non-trivial: at least one output bar.', [S('plain', 100000, 600000)], {'outputs': 100000})
P('C03', SERIES + 'Each case compares the window evaluation with a truncated, an old-data-replaced, a shifted and (non-recursive functions) a full-range evaluation.', [S('plain', 80000, 400000)], {'prefix_checks': 10000, 'oldbar_checks': 5000, 'shift_checks': 10000, 'subrange_checks': 5000})
P('C04', SERIES + 'Each case aliases one or more real outputs with distinct inputs (random assignment). Non-trivial: at least one output bar.', [S('plain', 90000, 600000)], {'aliased_outputs': 10000})
P('C05', SERIES + 'Inputs are rounded to single precision; both variants see the same values.', [S('plain', 90000, 400000)], {'outputs': 100000})
P('C06', SERIES + 'Library-wide settings (unstable period, Metastock mode, candle settings) vary too. Each case feeds every bar to the streaming form and compares return code and every output with the batch result.', [S('plain', 80000, 800000)], {'outputs_compared': 100000, 'pattern_firings': 5000, 'candle_setting_cases': 1000, 'unstable_period_cases': 1000, 'metastock_cases': 500, 'refined_series': 100000})
P('C07', SERIES + 'Each case cuts one series into random blocks (0..n bars, single steps mixed in) and compares a block-fed stream with a step-fed one. Non-trivial: at least one bar fed.', [S('plain', 80000, 1000000)], {'chunks': 100000, 'primed_elements': 100000, 'unprimed_elements': 50000, 'empty_ranges': 10000})
P('C08', SERIES + 'Each case saves a stream at one to three random bars (0 and the last included), loads it and continues both. Non-trivial: every case.', [S('plain', 24000, 500000), S('asan', 600, 20000, name='ASan')], {'saves': 50000, 'multi_file_states': 1000})
P('C09', SERIES + 'For each saved state every truncation length (sampled above 600 bytes) is loaded and every short write position is saved to; every single read and write call also fails once with the device working again afterwards. Non-trivial: every case.', [S('plain', 400, 12000), S('asan', 40, 2000, name='ASan', env={'ASAN_OPTIONS+': ':detect_leaks=1'})], {'truncations': 500000, 'short_writes': 500000, 'single_write_errors': 200000, 'single_read_errors': 200000, 'refused_overwrites': 5000}, level='fault_enumeration')
P('C11', SERIES + 'For each call sequence (batch, float batch, stream life, load, parameter holder, tables) every allocation fails in turn until none is left to fail. Non-trivial: every case.', [S('plain', 12000, 100000), S('asan', 160, 4000, name='ASan+LSan', env={'ASAN_OPTIONS+': ':detect_leaks=1'})], {'failed_allocations': 100000, 'clean_calls': 50000, 'clean_streams': 20000, 'null_frees': 5000}, level='fault_enumeration')
P('C10', SERIES + 'Thread cases start 2-4 threads at a barrier, each executing random tasks (batch, float, lookback, streams stepped, in blocks, saved and reloaded, abstract calls, table and metadata queries), most on one function; interleaving cases step 2-6 streams in a random order with foreign calls in between. Distinct by schedule/task signature.',
  [S('tsan', 24, 800, name='ThreadSanitizer', sub='threads'), S('plain', 400, 12000, name='serial replay comparison')], {'concurrent_tasks': 50000, 'thread_groups': 10000, 'interleaved_streams': 50000, 'stream_switches': 500000})
P('C12', SERIES + 'Two thirds of the cases make one to three arguments invalid (optional parameters one step outside their range, NaN excepted, infinities, INT_MAX, negative or reversed ranges, NULL arrays) and expect one of the applicable codes from the batch, float, lookback and StateInit forms; the rest use limit values, defaults and default sentinels and expect success and sentinel == documented default, bit for bit.',
  [S('plain', 80000, 1000000)], {'rejected_calls': 100000, 'rejected_inits': 20000, 'rejected_steps': 20000, 'sentinel_cases': 2000, 'accepted_calls': 50000})
P('C22', SERIES + 'Each case runs one call (batch, float, lookback, stream, save/load, blocks, abstract) and repeats it at once, after random other calls with patterned heap memory and stack, and with arrays at other addresses in read-only pages; all results must agree bit for bit. The MemorySanitizer stage runs the same workload and reports any branch or output that depends on uninitialised memory.',
  [S('plain', 15000, 80000), S('msan', 1500, 8000, name='MemorySanitizer')], {'repeat_calls': 100000, 'intervening_calls': 200000, 'relocated_calls': 20000})
P('C13', SERIES + 'Parameters are set in a random order, a quarter of them first with other values, a fifth of the optional ones never; the call, lookback, stepped / block-fed / saved and reloaded stream through the holder (or the state function pointers) is compared with the direct call, bit for bit. Non-trivial: the series reaches the lookback.',
  [S('plain', 48000, 200000)], {'calls': 100000, 'steps': 200000, 'blocks': 50000, 'save_loads': 10000, 're_set_parameters': 50000})
P('C14', 'Every field (state fields included) of every function, group and table of the abstract interface against the reviewed API description, the C prototypes, the behaviour of the function and (stage xml) the XML description returned at run time; plus random calls that use the prices the input flags name.',
  [S('plain', 1200, 10000), S('asan', 20, 100, name='ASan'), dict(py='c14xml', name='xml', variant='plain', quick=0, thorough=0)], {'functions_described': 165, 'metadata_fields': 2000, 'behaviour_probes': 300, 'xml_comparisons': 2000, 'group_entries': 165})
P('C15', 'Random sequences of 10-60 abstract-interface operations on 1-3 holders: proper settings mixed with wrong types, indexes out of range, NULL pointers, foreign handles and holders, unknown names, missing parameters, streams without state, blocks, saved and reloaded streams (files exchanged with the direct interface), state pointers handed over, mismatched table frees. A model of each holder predicts every return code and every result. Distinct by operation sequence.',
  [S('asan', 500, 6000, name='ASan+UBSan', env={'ASAN_OPTIONS+': ':detect_leaks=1'}), S('plain', 20000, 200000)], {'sequences': 100000, 'misuse_calls': 1000000, 'completed_calls': 20000, 'completed_steps': 10000, 'completed_blocks': 10000, 'reloaded_states': 10000, 'foreign_files': 5000, 'swapped_states': 5000})
REFRULE = SERIES + 'Unstable periods vary per function id. Each case evaluates the function and an independent model written from its definition (direct window sums, no running state) on the same bars and compares lookback, range and every output; where rounding alone moves the output (a discontinuity or a vanishing denominator, established by perturbing the inputs by 1e-12) the value is not judged and counted as ill_conditioned. Non-trivial: at least one output bar.'
P('C18', REFRULE, [S('plain', 500000, 3000000)], {'values_checked': 5000000, 'refined_series': 100000})
P('C19', REFRULE, [S('plain', 500000, 3000000)], {'values_checked': 10000000, 'refined_series': 100000})
P('C20', REFRULE, [S('plain', 320000, 3000000)], {'values_checked': 10000000, 'refined_series': 100000})
CDLS = '2CROWS 3BLACKCROWS 3INSIDE 3LINESTRIKE 3OUTSIDE 3STARSINSOUTH 3WHITESOLDIERS ABANDONEDBABY ADVANCEBLOCK BELTHOLD BREAKAWAY CLOSINGMARUBOZU CONCEALBABYSWALL COUNTERATTACK DARKCLOUDCOVER DOJI DOJISTAR DRAGONFLYDOJI ENGULFING EVENINGDOJISTAR EVENINGSTAR GAPSIDESIDEWHITE GRAVESTONEDOJI HAMMER HANGINGMAN HARAMI HARAMICROSS HIGHWAVE HIKKAKE HIKKAKEMOD HOMINGPIGEON IDENTICAL3CROWS INNECK INVERTEDHAMMER KICKING KICKINGBYLENGTH LADDERBOTTOM LONGLEGGEDDOJI LONGLINE MARUBOZU MATCHINGLOW MATHOLD MORNINGDOJISTAR MORNINGSTAR ONNECK PIERCING RICKSHAWMAN RISEFALL3METHODS SEPARATINGLINES SHOOTINGSTAR SHORTLINE SPINNINGTOP STALLEDPATTERN STICKSANDWICH TAKURI TASUKIGAP THRUSTING TRISTAR UNIQUE3RIVER UPSIDEGAP2CROWS XSIDEGAP3METHODS'.split()
P('C17', 'Candle windows are built by hill climbing on the documented conditions of each pattern and then mutated one field at a time to sit on, just inside and just outside each condition; between them random, flat and trending candles. Candle settings come from a set/restore sequence kept in the monitor\'s own table (range type, period, factor of every type), penetration from 0 to above 1. Batch, single-precision and streaming outputs, lookback and range are compared with an independent model of each pattern. Non-trivial: at least one output bar.',
  [S('plain', 50000, 400000)], dict({'values_checked': 5000000, 'firings': 500000, 'near_misses': 500000, 'graded_firings': 1000, 'stream_values_checked': 1000000, 'float_values_checked': 1000000}, **{'fired_CDL' + c: 50 for c in CDLS}))
P('C16', SERIES + 'Each case writes the unstable registers (valid, ALL and invalid ids), checks every register, compares the function with the registers of all foreign ids at zero (batch, stream, lookback bit for bit), then sets one id it depends on and checks the growth of the lookback and, where the function has one recursive part, that the outputs are those of an earlier start. Non-trivial: at least one output bar.',
  [S('plain', 60000, 600000)], {'register_reads': 50000000, 'invalid_ids': 100000, 'bystander_comparisons': 500000, 'bystander_streams': 100000, 'lookback_growths': 100000, 'shifted_values': 2000000})
P('C23', SERIES + 'Each case makes 1-40 random calls (initialise, shutdown, set, restore, invalid identifiers) against a register model; probes in between read every register, compare the function under the reached settings with the same settings made directly after a fresh start (batch, stream and lookback bit for bit), compare candlestick outputs and lookbacks with the models under the modelled registers, and in Metastock mode compare bystanders with the default mode and EMA, WLMA, RSI, CMO with their Metastock definition. Return code descriptions for -70000..70000 and the version parts are checked once. Distinct by call sequence and series.',
  [S('plain', 18000, 100000), S('asan', 300, 3000, name='ASan+UBSan')], {'setting_calls': 5000000, 'register_reads': 50000000, 'refused_settings': 1000000, 'shutdowns': 100000, 'history_probes': 500000, 'lookback_probes': 200000, 'metastock_bystanders': 100000, 'metastock_values': 50000, 'candle_probes': 200000, 'retcode_descriptions': 140001, 'version_checks': 1})
P('C21', SERIES + 'Each case checks the documented bounds and orderings of one call, the identities that function leads (about 45 identities between functions, composed from independent calls at matching starts), and repeats the call (a quarter of the time also the stream) with all prices and all volumes multiplied by powers of two, comparing exactly; only results on either side of an absolute zero threshold of the library are left out and counted as threshold_values. Non-trivial: at least one output bar.',
  [S('plain', 90000, 1000000)], {'bounded_values': 20000000, 'ordered_values': 10000000, 'identity_values': 20000000, 'identities': 500000, 'scaled_values': 100000000})
P('C24', 'The code generator is built with ASan+UBSan and run until it changes nothing more (two or three times), unprivileged, on a private copy of the tree; then the library built from what it wrote and the library built from the tree itself execute the same generated calls (lookback, batch, single precision, refusals, abstract call, stepped / reloaded / block-fed stream, metadata, tables, return codes, XML) and every recorded value is compared. A second copy with other limits, defaults, names, hints and flags in its metadata tables, deleted function files and random new function definitions is regenerated, built and its argument handling, XML, group tables and the calling conventions of the new functions compared with those tables.',
  [dict(py='c24gen', name='generator', variant='plain', quick=0, thorough=0)], {'generator_runs': 3, 'processed_functions': 165, 'records': 300000, 'recorded_values': 6000000, 'idempotence_files': 300})

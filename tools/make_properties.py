#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be edited readably)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(zip(('name', 'where'), m)) for m in mechanism],
                               observe_at=observe, hook_needed=hook)))

prop('C01', 'A failed function call never uses up the function-depth budget',
     'The nesting depth charged to a call of a depth-limited (anydice-casting) function is given back when that call ends, however it ends: by a result, by any exception raised in its body (including interrupts), or after the settings were reset or changed while it ran. So after any history of succeeding and failing calls, every later top-level call has exactly the configured "maximum function depth" available: it is never truncated early and never allowed deeper.',
     ['histories', 'fault_sequences'], 'every sequence of calls, every placement and kind of exception inside nested bodies, every change or reset of the settings from inside a body',
     'Existing tests never let a decorated function raise and then go on using the library; the failure needs several failing calls followed by a recursive one.',
     ['src/decorators.py', 'src/settings.py'],
     [('max_func_depth wrapper', 'src/decorators.py'), ('settings_reset', 'src/settings.py')],
     ['results of decorated functions', 'number of nested levels actually entered', 'truncation message on stdout'],
     [('call depth', 'nesting depth of decorated calls in progress', 'src/decorators.py')])

prop('C02', 'Concurrent callers get the same results as sequential ones',
     'When several threads evaluate dice expressions and call decorated functions at the same time, under the same settings, each call returns in its thread exactly what the same call returns when run alone (distribution, number of dice, printed name, or the same error), whatever the interleaving. Re-applying the settings already in force from another thread (setting the same value, or resetting when everything is at its default) does not disturb them either.',
     ['schedules'], 'every interleaving, at bytecode granularity, of 2-4 caller threads each running its own sequence of library calls',
     'All tests are single-threaded.',
     ['src/decorators.py', 'src/roller.py', 'src/randvar.py', 'src/settings.py', 'src/utils.py'],
     [('per-thread call depth', 'src/decorators.py'), ('memoised rolls', 'src/roller.py'), ('settings_reset', 'src/settings.py')],
     ['results of roll, arithmetic, @, function library and decorated functions in each thread'],
     [('roll memo', 'previously computed NdD', 'src/roller.py'), ('settings', 'process-wide settings', 'src/settings.py')])

prop('C03', 'Results do not depend on what was computed before',
     'Evaluating a dice expression gives the result it has as the very first thing a fresh process does under the settings now in force: same outcomes (and number types), same exact probabilities, same number of dice, same position selection, same printed name, or the same error. Nothing evaluated earlier, under these or other settings, successfully or not, may influence it.',
     ['histories', 'configurations'], 'every history of evaluations (successful or failing) and of settings changes before the expression',
     'The memo of rolls is shared by the whole test process, but no test compares a result with the one computed from an empty memo, and none evaluates the same dice under different settings.',
     ['src/roller.py', 'src/randvar.py', 'src/utils.py', 'src/funclib.py', 'src/factory.py', 'src/seq.py'],
     [('roll memo and its key', 'src/roller.py'), ('factorial memo', 'src/utils.py'), ('lazy sums', 'src/randvar.py, src/seq.py')],
     ['vals/probs, len, str, k@x, get_vals_probs, mean, std of results'],
     [('roll memo', 'results by (number of dice, die)', 'src/roller.py')])

prop('C04', 'Dice and sequences never change once obtained',
     'A die or sequence the caller holds keeps its outcomes, probabilities, number of dice, printed name and contents for ever: using it (or an equal one) as an operand of any later roll, arithmetic, selection, function call, output or sampling, successful or failing, changes nothing about it. Lists, dicts and tuples the caller passes in are not modified either.',
     ['histories', 'fault_sequences'], 'every history of operations over a growing set of live values, with operations failing at arbitrary points',
     'Tests build a value, use it once and drop it; no test re-inspects operands, let alone all live values after each step.',
     ['src/roller.py', 'src/randvar.py', 'src/seq.py', 'src/decorators.py', 'src/factory.py', 'src/output.py'],
     [('roll() naming its result', 'src/roller.py'), ('set_source', 'src/randvar.py'), ('argument copying in the casting wrapper', 'src/decorators.py')],
     ['vals, probs, len(), str(), k@x, get_vals_probs of every live value after every operation'])

prop('C05', 'Settings change only when set or reset, and all-or-nothing',
     'Each setting holds the last value successfully given to it, until it is set again or all are reset to their defaults, and that value (and no other) governs the operations that follow. A rejected change (unknown name or invalid value) raises an error and changes no setting; no other operation, successful or failing, changes any setting.',
     ['histories', 'fault_sequences'], 'every history of valid and invalid settings changes, resets (also from inside running functions and compiled programs) and failing library operations',
     'Tests set one or two settings to one valid value each; none checks the remaining settings after a rejected change, a failure, or a sequence of changes and resets.',
     ['src/settings.py', 'src/randvar.py', 'src/funclib.py', 'src/output.py', 'src/decorators.py'],
     [('settings_set validation before assignment', 'src/settings.py'), ('settings_reset from pristine defaults', 'src/settings.py')],
     ['behaviour governed by each setting: k@x order, explode depth, recursion limit, truncation, zero-probability outcomes, output width, output sink'],
     [('settings', 'current value of each setting', 'src/settings.py')])

prop('C06', 'Compiling depends only on the program text and flags',
     'Compiling a program gives the same Python text, or is rejected in the same way, whatever was compiled before it in the same process: valid or invalid programs, unterminated strings or comments, compilations aborted part-way, the same or other flags. The flags passed in are not modified, so the same flags object can be used again with the same meaning.',
     ['histories', 'fault_sequences'], 'every history of compilations, accepted, rejected or aborted at an arbitrary point, with shared or separate flag objects',
     'Every test compiles with fresh flags and never compares with the result of a fresh process; malformed programs followed by good ones are not tested at all.',
     ['src/parser/parse_and_exec.py', 'src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/parser/ply/lex.py', 'src/parser/ply/yacc.py'],
     [('lexer and parser built per compilation', 'src/parser/parse_and_exec.py'), ('flag handling', 'src/parser/python_resolver.py')],
     ['return value or exception of compile_anydice', 'the flags dict after the call'])

prop('C07', 'Program runs are isolated and report each output once, in order',
     'Executing a compiled program (restricted or unrestricted) returns its outputs exactly once each, in the order the program produced them, with their names and with the exact distributions the program denotes. Variables and functions a program defines (also ones with the name of a library function) are invisible to every later program, also when the program failed part-way; only settings the program set carry over.',
     ['histories', 'programs', 'fault_sequences'], 'every sequence of programs run in one process, each possibly failing at an arbitrary statement',
     'Tests run one program at a time and look only at its own outputs; none runs a second program after one that defined names, redefined library functions or failed.',
     ['src/parser/parse_and_exec.py', 'src/parser/python_resolver.py', 'src/decorators.py', 'src/funclib.py'],
     [('fresh namespace per execution', 'src/parser/parse_and_exec.py'), ('output collector', 'src/parser/parse_and_exec.py')],
     ['list of outputs returned by safe_exec / unsafe_exec', 'NameError for names of earlier programs'])

prop('C08', 'Each output reaches its sink exactly once, whole, or fails visibly',
     'An output call delivers one message, the complete text that the same call returns when asked not to print, in a single call of the sink in force (the one passed, else the configured default, else standard output) and of no other sink. If the sink fails, its exception reaches the caller, the message is not delivered again, and later outputs are complete and unaffected.',
     ['fault_sequences', 'histories'], 'every sequence of outputs over several sinks, every placement and kind of sink failure, including writes torn part-way',
     'Tests only check return texts or capture stdout when nothing fails.',
     ['src/output.py', 'src/randvar.py', 'src/blackrv.py', 'src/settings.py'],
     [('output / _output_blank sink selection', 'src/output.py'), ('DEFAULT_PRINT_FN', 'src/settings.py')],
     ['calls received by each sink', 'what standard output received', 'exception seen by the caller'])

prop('C09', 'Random rolling follows the die and only the random source',
     'Sampling a die returns only outcomes that have non-zero probability, each with the probability the die gives it and independently of the other draws, exactly as many as asked for. The draws are a function of the die and of the state of Python\'s random generator alone, so restoring that state repeats them, and sampling changes neither the die nor any later result.',
     ['inputs', 'fault_sequences', 'histories'], 'every die, every state of the random generator including its extreme outputs, every history of earlier draws',
     'No test calls the sampler.',
     ['src/roller.py', 'src/factory.py'],
     [('roller', 'src/roller.py')],
     ['values returned by roller()', 'state of the random module after the call'])

prop('C10', 'Casting runs a function once per possible outcome, and mixes exactly',
     'Calling a decorated function with dice where numbers or sequences are expected invokes it exactly once for each combination of possible outcomes (sequences: each possible roll of the dice, highest first), and the result is the exact mixture of the returned values weighted by the probability of each combination. If any invocation raises, that very exception reaches the caller, no further invocation is made, and the next call is complete again.',
     ['inputs', 'fault_sequences', 'histories'], 'every signature, every mix of argument kinds, every failing invocation index and exception kind',
     'Tests check a dozen fixed calls; none counts invocations, and none makes an invocation fail.',
     ['src/decorators.py', 'src/randvar.py', 'src/factory.py'],
     [('anydice_type_casting', 'src/decorators.py'), ('expansion of a pool into rolls', 'src/randvar.py'), ('mixture', 'src/randvar.py')],
     ['arguments received by the function body at each invocation', 'result distribution', 'exception identity'])

prop('C11', 'Recursion always ends, truncated at exactly the configured depth',
     'Any (mutually) recursive set of decorated functions returns: at most "maximum function depth" decorated calls are ever nested, a call beyond that gives the empty die without running the body, and the overall result is exactly what those substitutions denote. The first truncation prints the warning once; it is not printed again until the settings are reset, and if printing it fails the error surfaces and nothing else changes.',
     ['programs', 'configurations', 'fault_sequences'], 'every recursive program, every depth limit, also when the limit changes between or during calls or writing the warning fails',
     'Tests run a few recursive programs at the default depth and never observe the nesting or the warning.',
     ['src/decorators.py', 'src/blackrv.py', 'src/randvar.py', 'src/settings.py'],
     [('max_func_depth', 'src/decorators.py'), ('empty die in arithmetic and mixtures', 'src/blackrv.py, src/randvar.py')],
     ['deepest nesting entered by function bodies', 'result distribution', 'warnings on stdout'])

prop('C12', 'Iterables are read once, and a failing one fails the call cleanly',
     'Wherever the library takes an iterable of numbers or dice, a one-shot iterator gives the same result as a list of the same items, and is read at most once from start to end. If it raises part-way, that exception reaches the caller, no result is produced, and repeating the call with a healthy iterable gives the full correct result.',
     ['inputs', 'fault_sequences'], 'every entry point taking an iterable, every length and nesting, every position and kind of failure',
     'Tests pass lists, tuples and Seq objects only.',
     ['src/factory.py', 'src/seq.py', 'src/randvar.py', 'src/roller.py', 'src/decorators.py', 'src/utils.py', 'src/output.py'],
     [('flatten / get_seq', 'src/utils.py, src/factory.py'), ('RV constructor and from_rvs', 'src/randvar.py'), ('iterable arguments', 'src/roller.py, src/decorators.py')],
     ['results', 'number of items pulled', 'exception identity'])

prop('C13', 'Restricted execution never runs a program outside the sandbox',
     'When asked for restricted execution, program text runs only inside the restricted environment: if the sandbox package or any part of it is missing or fails to load, no statement of the program runs. With the sandbox present, text that imports modules, opens files, evaluates strings, touches underscore names or uses other Python built-ins outside the safe set is refused with an error and has no such effect, and later restricted runs are unaffected.',
     ['fault_sequences', 'programs'], 'every way the sandbox can fail to load, in any order with successful runs, and every hostile program from a grammar of escape attempts',
     'Tests only run benign programs with the sandbox installed.',
     ['src/parser/parse_and_exec.py'],
     [('safe_exec import guard and restricted globals', 'src/parser/parse_and_exec.py')],
     ['statements of the program that ran (probe calls)', 'outputs returned', 'files created in a scratch directory'])

prop('C14', 'Interrupting an evaluation at any instant leaves the library sound',
     'If an evaluation (rolling, arithmetic, selection, built-in functions, sampling, settings changes, compiling) is aborted at any instant by an asynchronous exception such as Ctrl-C, every value that existed before is unchanged, each setting holds its old or its new value, and evaluating anything afterwards, including the interrupted expression itself, gives exactly what a fresh process gives.',
     ['crash_points', 'histories'], 'every instruction of the library at which the exception can arrive, in every history of evaluations',
     'No test interrupts anything.',
     ['src/roller.py', 'src/randvar.py', 'src/utils.py', 'src/settings.py', 'src/parser/parse_and_exec.py', 'src/parser/myparser.py'],
     [('memo filled only with finished values', 'src/roller.py, src/utils.py'), ('single-step settings updates', 'src/settings.py')],
     ['results after the interruption', 'live values', 'settings behaviour'])

prop('C15', 'Programs can be compiled and run concurrently',
     'When several threads compile and execute programs at the same time, each compilation yields the same Python text or the same rejection, and each execution the same list of outputs, as when run alone, whatever the interleaving. No program sees another one\'s variables, functions or outputs.',
     ['schedules', 'programs'], 'every interleaving of 2-3 threads each compiling and executing its own programs, valid and invalid',
     'All tests are single-threaded.',
     ['src/parser/parse_and_exec.py', 'src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/parser/ply/lex.py', 'src/parser/ply/yacc.py', 'src/decorators.py'],
     [('lexer, parser, resolver and namespace per call', 'src/parser/parse_and_exec.py')],
     ['compiled text, rejection, outputs per thread'])

prop('C16', 'Results are the same in every process, whatever the hash seed',
     'Compiled text, accept or reject decisions, distributions (numeric and symbolic), position selections, filtered and cut-off views and printed outputs are identical in every interpreter process, independent of Python\'s per-process hash randomisation.',
     ['configurations', 'inputs', 'programs'], 'every hash seed, for every program and dice expression, including symbolic (string) dice',
     'The tests run with one fixed hash seed.',
     ['src/randvar.py', 'src/string_rvs.py', 'src/parser/python_resolver.py', 'src/parser/ply/yacc.py', 'src/parser/ply/lex.py'],
     [('sorting and grouping of outcomes', 'src/randvar.py'), ('order of symbolic values', 'src/string_rvs.py'), ('ordered generation of tables and text', 'src/parser')],
     ['canonical digests of all results in each process'])

# ---- pure functions of their input: stated, but outside this technique
prop('C30', 'Distributions are exact for every dice expression',
     'Rolling, arithmetic, comparison, boolean, rounding and mixing operations return exactly the distribution of the corresponding operation on independent dice.',
     ['inputs'], 'every expression', 'tests sample a few hundred expressions',
     ['src/randvar.py', 'src/roller.py'], [('convolution, mixture', 'src/randvar.py')], ['vals, probs'])
prop('C31', 'Position selection is the exact order statistic',
     'Selecting positions from a pool of dice gives exactly the distribution of those order statistics (sum of them for several positions), in the configured order; positions outside the pool give 0.',
     ['inputs'], 'every pool, selector and order', 'tests sample small pools',
     ['src/randvar.py', 'src/seq.py'], [('_get_kth_order_statistic, _sum_at', 'src/randvar.py')], ['vals, probs'])
prop('C32', 'Compiled programs mean what the anydice program means',
     'For every valid anydice program the generated Python has the same outputs as the anydice language defines: operator precedence, casting, scoping, defaults.',
     ['programs'], 'every program', 'tests compare some 350 programs',
     ['src/parser/myparser.py', 'src/parser/python_resolver.py'], [('grammar and resolver', 'src/parser')], ['outputs'])
prop('C33', 'Generated Python is always well-formed and contains no user-injected code',
     'Whatever characters strings, names and comments contain, an accepted program compiles to syntactically valid Python in which they are data only.',
     ['programs'], 'every program text', 'tests use benign strings',
     ['src/parser/python_resolver.py', 'src/parser/myparser.py'], [('string escaping, name mapping', 'src/parser/python_resolver.py')], ['generated text'])
prop('C34', 'Printed output states the distribution correctly',
     'Mean, deviation, percentages, bars and cut-offs printed are those of the distribution.',
     ['inputs'], 'every distribution and formatting option', 'tests check a few texts',
     ['src/output.py', 'src/randvar.py'], [('output', 'src/output.py')], ['text'])
prop('C35', 'Symbolic dice form a commutative algebra',
     'Sums of symbolic values do not depend on the order of the terms, equal values are merged, and their order is total.',
     ['inputs'], 'every combination of symbols and numbers', 'tests check a few sums',
     ['src/string_rvs.py'], [('StringVal', 'src/string_rvs.py')], ['vals'])
prop('C36', 'Scaling down huge probabilities loses no more than the stated error',
     'When integer weights exceed the limit they are scaled down with an absolute error per outcome below the logged bound, keeping outcomes and order.',
     ['inputs'], 'every distribution large enough', 'tests hardly reach the limit',
     ['src/randvar.py'], [('_INTERNAL_PROB_LIMIT_VALS', 'src/randvar.py')], ['probs'])

out = pathlib.Path(__file__).resolve().parents[1] / 'properties.jsonl'
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P), 'properties')

"""Writes DESIGN.md: hand-written parts below, rules of the checks, and the table of planted bugs."""
import glob
import importlib
import json
import os
import re

HEAD = '''# Verification of es7s/kolombos by runtime monitoring

Deciding method for every property: the real code is executed under generated hostile workloads, and an
oracle that observes the execution (output cells, exit status, fault point, executed steps, allocated memory,
return values) decides. Nothing of the application is mocked; no hooks in /repo are needed, since every property
is observable at the command line, through CPython's own monitoring interfaces (`sys.monitoring`, `tracemalloc`,
audit hooks), or at the public API of the bundled `pytermor` library. No property is left out as not applicable.

The code base is pure Python: compiler sanitizers and race detectors have nothing to look at (one thread, no native
code), so the monitors are of the behavioural kind. What takes the place of schedules are the ways data arrives
(chunks, pauses, faults, signals), the read buffer, and histories of operations on stateful objects.

## Machinery (lib/)

* `harness.py` - fork server: the worker imports the application from /repo's working tree once, then forks for
  every case; the child gets its own stdin/stdout/stderr (memory files, pipes, ptys), argv and environment, and
  runs the real entry point to its real exit. CPU, address-space and output-size limits stop runaway cases. A
  sample of cases is repeated through a real `python -m kolombos` process and must give the same bytes, so that
  start-up effects are seen too.
* `term.py` - terminal model: interprets output bytes as a terminal would, giving attributed cells
  (character, foreground, background, flags) and flagging every control character or malformed sequence. All
  comparisons are done on cells, so equivalent escape codes are equal, and an edit that only changes how a colour is
  spelled raises no alarm.
* `model.py` - executable specification, independent of /repo: tokeniser of the documented grammar, glyph and
  style table, and layout of both modes; predicts every cell of the ordinary output.
* `gen.py` - workload generators: fragments of every token kind, near misses, mutations, cut points,
  exhaustive small spaces, option sets; all random choices come from VERIF_SEED.
* `checks/` - one module per property; each projects the observation on what its property states, so
  one defect is reported by the properties it breaks and not by all of them. `fixed()` cases (enumerations, regressions)
  run first, then `generate()` fills the time budget (quick: about 25 s per check on all cores; thorough: 780 s), every
  case from its own seed.
* `run_check.py --property ID` - runs a check on all cores, minimises a failing case (pieces of data and options
  are removed while it still fails), writes evidence/ID.json (what the monitors saw: cases,
  distinct non-trivial cases, counters, peaks), prints
  `VIOLATION property=ID replay=...` with a replayable case (`run_check.py --property ID --replay FILE`).
* `mkmanifest.py`, `mkdesign.py` - write MANIFEST.json and this file. `checks/selfcheck.py` compares whole screens with
  the model, for development.

Robustness against equivalent edits: checks use the command line and public names of the library only, never names of
modules' internals; comparisons are on what a terminal shows, on values, or on effects; timing is never decisive
(effort is counted in executed lines and compared between sizes of input, memory has slack, waits have generous limits).

## Properties

'''

# id: (oracle and bounds, why tests do not settle it)
P = {
 'C01': ('The dump is read back like a user would: offset column, hexadecimal column, closing line. The oracle needs no model of tokens. Sizes: 0 bytes to some KB at random with all column numbers and buffers, multiples of everything '
         'around 2^16, one input of 16.9 MB (quick) and of more than 100 MB in decimal (thorough) for offsets that get longer.',
         'losing or repeating a byte needs a coincidence of a token, a row end and a read boundary.'),
 'C02': ('Rows are measured in cells: distances between columns, number of characters, padding of the last row, total width against the width of the terminal (given by variable or pty); decoded characters in as many positions as bytes.', 
         'rows x columns x widths x tokens cut by rows.'),
 'C03': ('The text of every line is predicted by the token model; unterminated last lines, empty lines, lines of markers only.', 'as C01; the state carried over lines and reads matters.'),
 'C04': ('The class of every byte is made visible (each class ignored or focused in turn, marker shapes) and compared with the tokeniser of lib/model.py. All 1- and 2-byte strings, all strings of up to 4 class representatives; thorough: all code points.', 
         'classification is by one regular expression with many alternatives: a wrong boundary shows for single code points or contexts only.'),
 'C05': ('Differential, cell by cell, with a plain run of the same bytes: buffer sizes 1.., files, named and anonymous pipes, sockets, text typed at a (pseudo) terminal, the rest of an already partly read file, writers that cut anywhere and pause. The number of boundaries inside tokens is counted.', 'needs a boundary at every position of every kind of token.'),
 'C06': ('Differential with the run on input cut by the oracle; early finish is observed with a pipe that delivers the needed data and stays open (a run that waits is caught by a time limit, the pipe by a monitor of what has been read).', 'limits x buffers x positions of line feeds.'),
 'C07': ('Status, stderr, hang monitor on everything generated; growth cases count executed lines (sys.monitoring) for n and 4n bytes of 50+ repetitive patterns and large buffers, and CPU time with slack for work hidden inside builtin calls (regular expressions, slicing). First run of a fresh copy without byte code.', 
         'no finite set of examples shows termination and linear effort over patterns.'),
 'C08': ('A lexer for output bytes (C0, DEL, C1 in both encodings, completeness and kind of every sequence) run at all debug levels too.', 'one forgotten path for one character suffices to break it.'),
 'C09': ('Attributed cells: every character has the style of its token; line ends and the end of output are checked for active attributes.', 'styles leak only where tokens are cut, zero-length or adjacent.'),
 'C10': ('All 729 combinations of six classes with three states in both modes on a text with all tokens, then random ones; compared with the run without the options.', '729 combinations x tokens.'),
 'C11': ('Units of output (marker plus details plus separators) are compared with the bytes of the token.', 'as many contents as there are sequences.'),
 'C12': ('Details and the colours of the cells are computed from the parameter list by an own SGR interpreter; order of sequences matters (caches).', 'parameter lists are unbounded, caches make it a matter of history.'),
 'C13': ('Difference of two runs: only named elements may change (prefix removed, separators gone, numbers reformatted).', 'options x inputs.'),
 'C14': ('Offline checker of the debug log: all dump rows put together must be the input, result rows equal those of the ordinary run; option values of the dump against those given.', 'the log of each run has to be consistent with that run.'),
 'C15': ('Command line oracle; the position of a shared standard input file tells whether anything has been read; a never-ending pipe tells whether anything is waited for.', 'spellings x orders x combinations.'),
 'C16': ('Faults: missing, unreadable, broken files, directories; errors after n reads, EINTR, keyboard interrupts and real signals at any read; outputs: /dev/full, size limits (RLIMIT_FSIZE), closed pipes and descriptors at any byte. Oracle: status, message, prefix of the fault-free output.', 'each fault at each point.'),
 'C17': ('Queue specification executed alongside: histories of attach, detach bytes, detach line, forced or not; pieces concatenated and interpreted by the terminal model.', 'histories.'),
 'C18': ('At every read call the amount of output so far must contain everything complete; the floor of traced memory over a run with stationary input must not rise.', 'unit tests see only results, not when they appear or what is retained.'),
 'C19': ('Byte comparison of separate real processes which differ in environment only.', 'tests run in one environment.'),
 'C20': ('Opening + text + closing printed to the terminal model from default and random states.', 'combinations of codes.'),
 'C21': ('List model alongside; operands compared after every step (aliasing).', 'histories, aliasing.'),
 'C22': ('Exact arithmetic for conversions (blocks covering the cube; thorough: all 2^24), brute-force minimum for nearest colours, histories of registration and lookup (caches), 256-colour table computed independently.', 'caches and ties depend on history; the cube is large.'),
 'C23': ('Models of a terminal, tmux and HTML interpret what has been rendered; compatibility modes are compared with brute-force nearest palette members.', 'global renderer settings: histories.'),
 'C24': ('Fragment lists alongside; format() compared with that of str on the visible text.', 'aliasing and histories.'),
 'C25': ('Own scanner of control sequences decides what has to be left.', 'adjacent and incomplete sequences.'),
 'C26': ('Exact rational arithmetic on the text returned: length, error bound, digits shown, refusals.', 'carries and powers of ten next to each length limit.'),
 'C27': ('Exact rational arithmetic: prefix, magnitude, number of fraction digits, length limits, overflow marks.', 'the same.'),
 'C28': ('Exact unit arithmetic over all unit boundaries, all maximum lengths, custom formatters.', 'boundaries x lengths x formatters.'),
 'C29': ('Audit hook inside the real process (open with writing, remove, rename, mkdir, chmod, exec, fork, sockets, ...) and snapshots of directory trees, attributes, descriptor modes (O_NONBLOCK, O_APPEND), termios before and after.', 'side effects are not among the results a test looks at.'),
 'C30': ('Models of all live styles, presets and NOOP are compared after every step.', 'aliasing between styles, histories.'),
 'C31': ('The test holds the other end of a pseudo terminal: settings before, during and after, echo, keys left for the next reader, signals.', 'needs a terminal, interruption at the right moment.'),
 'C32': ('Every row of the legend is read back from its escape sequences on the terminal model; the application then displays the example in random contexts with the options of the row and random others, and label, text and hexadecimal cells are compared with characters and styles. Class ranges are compared by running every byte with each of the two options.', 'the legend is data which nothing ties to the templates.'),
 'C33': ('The help is parsed from the output; each option it lists is run in every spelling, with and without values, and the output is compared with the model of what the description promises; registrations with the argument parser are observed by a hook and names are tried, to find options not listed; documented defaults are given explicitly (output and consumed input are compared); examples are run; the help at every width has the same contents.', 'descriptions, parser settings and behaviour are three separate places.'),
 'C34': ('Random templates (nested and joined tags, comments, blanks, unknown names, values that look like tags) go through one processor and through a character scanner written from the description; warnings are counted. The generator runs in a scratch copy of the sources (terminal, pipe, file, null; environments; directories; previous legends; appended template lines) and the result is compared with the shipped legend byte by byte; all other files must stay as they were. LIST_* names are not generated (they are not formats).', 'the template language, the generator and the shipped file are not touched by any test.'),
}

TAIL = '''
## Defects found in es7s/kolombos

All were repaired with `fix:` commits; `known-findings.txt` names commit and property. No finding is left open, so no check
prints a KNOWN-FINDING line. Each of the repairs is kept as a fixed case or lies in the space generated, and was confirmed by
reverting it: the check named reports it again.

## False alarms corrected (property or machinery was wrong, not the code)

* C17: requests for zero bytes were judged as requests; the statement now speaks of positive numbers.
* C18: freed objects kept in interpreter free lists, and the unfinished row, counted as growth; the floor over the run is taken instead.
* C16: a terminal hanging up is an end of input, not a read error.
* C15: placeholder and separator shapes that the legend does not explain were demanded from it.
* C26: more than 15 significant digits cannot be asked of a float; tiny numbers in 1 or 2 characters have no digit to show.
* C07: debug output is quadratic by nature (state is dumped at every read); it is exempted in the statement.
* C27: refusing (ValueError) values beyond the prefixes whose digits do not fit is allowed.
* C13: mutually exclusive options were combined.
* C19: help is styled on terminals (argparse replacement of the application); --demo with a file conflicts; with closed
  standard error Python's argparse prints usage on standard output; a directory as standard input is refused by Python itself.
* C31: '\\r' typed in raw mode is followed by waiting for the next key in a text stream with universal newlines; keys of that
  kind are not generated.

## Observations not claimed

* tmux renderer: `nounderscore` and double underline are approximations; HTML and tmux renderers do not escape their input (they are given text,
  not mark-up, and nothing documents escaping); the order of style attributes in HTML depends on the hash seed, though the meaning does not.
* `Style` equality compares colours only; `Style` is not hashable: nobody relies on either.
* A docstring example (`format_si_metric(0.331, 'g')`) shows another result than the code gives for the documented rules.
* `python -S -m kolombos` fails for lack of `exit()`: not a supported way of running it.
* Packaging and IDE configurations (`dev/runConfigurations`) are out of scope: they run at development time only.

## Planted bugs

Each lies in `seeded/<id>/` (patch, demonstration, description) and was confirmed to build, to pass the stable tests, and to be told
apart by its demonstration. "Caught by" is the check of its property (quick tier, seed 1); none is left uncaught.
Those marked * were missed at first and the check was strengthened in general terms (see below).

'''

STRENGTHENED = {
    'c10-ignored-newline-run': 'thousands of tokens of one kind, focused and ignored, are part of the fixed cases now',
    'c03-bom-lost': 'inputs start with signatures known to other programs now (byte order marks, compressed and executable files, ...)',
    'c02-long-rows': 'explicit numbers of columns up to 10 000 with short last rows were added',
    'c15-negative-file': 'existing files with names like special arguments are read by relative names now',
    'c19-columns-env': 'many more terminal types and variables, each in an environment of its own where they exclude each other',
    'c28-long-limit': 'maximum lengths up to a million were added',
    'c07-marker-level': 'a table of odd values of every option with a number was added',
    'c03-number-past-999': 'inputs of 10 000 and 100 000 lines were added',
    'c14-settings-none': 'limits of zero and below, and long dumps at every debug level, were added',
    'c14-dump-long': 'limits of zero and below, and long dumps at every debug level, were added',
    'c25-center-odd': 'widths up to 10 000 were added',
    'c25-center-odd-2': 'widths up to 10 000 were added',
    'c18-buffers': 'series of inputs made of one kind of token were added for the memory bounds',
    'c05-pending-crop': 'escape sequences longer than 64 bytes split between reads were added',
    'c15-after-dashes': 'file names that look like options, given after `--`, were added',
    'c17-line-scan-limit': 'histories with thousands of pending segments were added',
    'c29-spooled-stdin': 'inputs of more than a megabyte were added',
    'c23-long-text': 'texts of more than 64 K characters were added',
    'c25-many-matches': 'strings with thousands of sequences were added',
    'c22-coarse-when-large': 'histories with thousands of lookups without registrations were added',
    'c31-typed-ahead': 'keys typed before anybody waits for them were added',
    'c12-sixteen-codes': 'sequences of up to 600 parameters were added',
    'c19-own-variable': 'the variables that the code consults are observed and then varied, with values the code compares them with',
    'c19-date': 'clock, ids, host, randomness and file attributes are varied now',
    'c14-decimal-debug': 'inputs with offsets of five digits were added to the debug cases',
 'c05-stdin-rewound': 'a standard input that is the rest of a file (position not zero) was added to C05',
 'c01-offset-wraps': 'an input longer than six hexadecimal digits of offset is part of the quick tier now',
 'c13-columns-in-text': 'options of the other mode are combined at random now instead of one at a time',
 'c05-plane-16': 'every range of UTF-8 lead and continuation bytes across boundaries was added to C05',
 'c05-two-intermediates': 'sequences with several intermediate bytes across boundaries were added',
 'c14-preview-dots': 'shortened previews are compared with the contents now',
 'c06-cr-at-limit': 'what precedes the line feed at the limit is compared now',
 'c15-demo-zero-columns': 'the demo with zero and negative column counts was added',
 'c26-no-separator': 'grouping of thousands was claimed and added',
 'c27-announced-length': 'separators of several characters were added',
 'c06-large-line-limit': 'limits of 10000 lines and more with enough input',
 'c06-large-byte-limit': 'limits above 1 MiB with enough input',
 'c03-control-run': 'runs of one byte up to 9000',
 'c18-long-segments': 'a memory series with long tokens',
 'c23-many-attributes': 'styles with every attribute at once',
 'c23-record-separator': 'texts with control characters and every line separator',
 'c24-raw-nul': 'texts with NUL and other control characters',
 'c34-merged-variables': 'changing sets of variables through one processor',
 'c33-example-limit': 'the line above an example is parsed and compared with its options',
 'c33-debug-levels': 'number of lines per debug level',
 'c01-decimal-4g': 'offset labels up to 2^70',
 'c01-backlog-cap': 'read buffers of 3 MB',
 'c03-queue-cap': 'more than 100000 tokens waiting at once',
 'c14-state-of-cut-token': 'the bytes listed in "Buffer state" lines are compared with those still waiting',
 'c22-many-nearest': 'up to 5000 nearest colours asked for',
 'c23-tmux-carriage-return': 'control characters at the ends of lines with every renderer',
 'c25-long-sgr': 'sequences with up to 10000 parameter characters',
 'c28-rounded-unit': 'durations down to 1e-13 of their size below a unit boundary',
 'c03-line-number-wrap': 'line numbers up to 2^70',
 'c04-csi-length': 'sequences of up to 40000 characters',
 'c06-line-limit-99999': 'limits above 100000 lines',
 'c06-byte-limit-32-bits': 'limits from 2^15 to 10^30',
 'c15-dash-with-space': 'file names that differ from "-" in a blank only',
 'c24-thousand-fragments': 'texts of thousands of fragments',
 'c26-long-result': 'lengths up to 1000',
 'c27-tiny-not-scaled': 'values over the whole range of floats',
 'c30-long-class-name': 'class names up to 5000 characters, 150 levels of inheritance',
 'c19-dumb-terminal': 'runs without any known width are compared among each other now',
}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    import sys
    sys.path[:0] = [here, here + '/lib']
    with open(here + '/properties.jsonl') as f:
        props = [json.loads(x) for x in f]
    r = [HEAD]
    for p in props:
        i = p['id']
        rule = importlib.import_module('checks.' + i.lower()).CHECK.RULE
        r.append('### %s %s\n\n*Workload.* %s.\n\n*Oracle, bounds.* %s\n\n*Beyond tests because:* %s\n\n' % (i, p['title'], rule.rstrip('.'), *P[i]))
    r.append(TAIL)
    r.append('| planted bug | property | what it needs | what it breaks |\n|---|---|---|---|\n')
    for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        c = lambda s: re.sub(r'\s+', ' ', str(s)).replace('|', '\\|')
        r.append('| %s%s | %s | %s | %s |\n' % (n, '*' if n in STRENGTHENED else '', m['property'], c(m['needs']), c(m['what_it_breaks'])))
    r.append('\nStrengthened after a miss:\n\n')
    r += ['* %s: %s\n' % x for x in sorted(STRENGTHENED.items())]
    with open(here + '/DESIGN.md', 'w') as f:
        f.write(''.join(r))


if __name__ == '__main__':
    main()

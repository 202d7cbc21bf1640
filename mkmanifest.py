"""Writes MANIFEST.json."""
import json

CLI = ('runtime monitoring of the real application (forked interpreter with real pipes/files, every ~100th case in a separate process) '
       'under generated hostile inputs and options; ')
LIB = 'runtime monitoring of the real library under generated inputs and histories; '
TRUST_CLI = ('Held on every execution observed; nothing is proved about others. Trusted: the terminal model (lib/term.py), the '
             'specification model of tokens (lib/model.py), CPython.')
TRUST_LIB = 'Held on every call observed; nothing is proved about others. Trusted: the oracle in the check, CPython arithmetic.'
T = {
    'C01': CLI + 'dump parsed back and compared with the input byte for byte',
    'C02': CLI + 'geometry and characters of every row measured on a terminal model',
    'C03': CLI + 'visible text of every line compared with an independent token model',
    'C04': CLI + 'classification of every byte compared with an independent tokenizer',
    'C05': CLI + 'differential over read buffer sizes, sources and write boundaries, cell by cell',
    'C06': CLI + 'differential against the run on the cut input; reads of the source observed through unclosed pipes',
    'C07': CLI + 'status, stderr and hang monitor; executed lines (sys.monitoring) and CPU time against input size',
    'C08': CLI + 'every byte of output lexed the way a terminal does',
    'C09': CLI + 'terminal state reconstructed at every character and compared with the token model',
    'C10': CLI + 'differential against the run without the options, cell by cell',
    'C11': CLI + 'every unit of output compared with what its token contains',
    'C12': CLI + 'markers and details compared with the parameters of their own sequence',
    'C13': CLI + 'differential between runs differing in one option',
    'C14': CLI + 'offline checker of debug logs against the input and the ordinary run',
    'C15': CLI + 'command line oracle over generated argument vectors, position of standard input watched',
    'C16': CLI + 'fault injection (files, reads, signals, outputs) with an oracle over status, diagnostics and output',
    'C17': LIB + 'online checker of a queue specification over histories',
    'C18': CLI + 'output amount and traced memory (tracemalloc) monitored at every read request',
    'C19': 'differential runtime monitoring: separate processes of the real application in different environments, compared byte for byte',
    'C20': LIB + 'results interpreted by a terminal model from random prior states',
    'C21': LIB + 'online comparison with list models over histories',
    'C22': LIB + 'brute-force nearest colour and own palette tables, histories in forked processes',
    'C23': LIB + 'terminal, tmux and HTML models interpret everything rendered, over histories of settings',
    'C24': LIB + 'online comparison with fragment lists over histories',
    'C25': LIB + 'own scanner of control sequences as the oracle',
    'C26': LIB + 'results judged in exact rational arithmetic',
    'C27': LIB + 'results parsed back and judged in exact rational arithmetic',
    'C28': LIB + 'results compared with exact unit arithmetic',
    'C29': CLI + 'audit hook on every opening, file change, process and connection; surroundings compared before and after',
    'C30': LIB + 'all live objects and presets compared with models after every step',
    'C31': 'runtime monitoring of the real functions on pseudo terminals: settings, echo and results observed from the other side, interrupts injected',
    'C32': CLI + 'cells of the legend compared with those of the application on a terminal model',
    'C33': CLI + 'the help, parsed, is compared with runs of everything it lists; registered options observed by a hook',
    'C34': 'runtime monitoring of the real template processor under random histories of templates against an independent scanner, and of the generator run in scratch copies of the sources',
}
# overrides by property, where the general remark is not enough
NOTE = {
    'C07': 'Effort is measured in executed lines (deterministic) and, with slack, CPU time; bounds are ratios between input sizes.',
    'C16': 'Faults are real ones inside scratch directories where possible (files, pipes, /dev/full, size limits, signals), stand-in streams elsewhere.',
    'C18': 'Memory bounds have slack for the allocator.',
}


def main():
    ids = [json.loads(line)['id'] for line in open('/verif/properties.jsonl')]
    assert ids == list(T), (ids, list(T))
    checks = []
    for i in ids:
        cmd = './run_check.py --property ' + i
        lib = i >= 'C20' and i not in ('C29', 'C32', 'C33') or i == 'C17'
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % i, 'technique': T[i],
                       'level': 'exploration', 'level_note': ' '.join(x for x in [TRUST_LIB if lib else TRUST_CLI, NOTE.get(i)] if x)})
    doc = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); import kolombos, pytermor"', 'checks': checks,
           'not_applicable': [],
           'notes': 'Pure Python, nothing to build: checks import /repo directly. Tier, seed from VERIF_TIER, VERIF_SEED; KV_BUDGET overrides the time budget in seconds.'}
    with open('/verif/MANIFEST.json', 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
        f.write('\n')


if __name__ == '__main__':
    main()

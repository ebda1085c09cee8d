"""Write properties.jsonl and MANIFEST.json from lib/propdefs.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import propdefs      # noqa: E402


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for pid, d in sorted(list(propdefs.PROPS.items()) +
                list(propdefs.NOT_APPLICABLE.items())):
            assert len(d['title']) <= 80, pid
            f.write(json.dumps({
                'id': pid, 'title': d['title'],
                'statement': ' '.join(d['statement'].split()),
                'quantifier': {'over': d['over'],
                    'text': ' '.join(d['quant'].split())},
                'why_tests_cant': ' '.join(d['why'].split()),
                'anchors': {'files': d['files'],
                    'mechanism': [{'name': n, 'where': w}
                        for n, w in d['mechanism']],
                    'hook_needed': None},
            }) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3-vt -c "import ast, lib2to3" ; true',
        'checks': [{
            'property': pid,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % pid,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % pid,
            'technique': d['technique'],
            'level': 'other',
            'level_note': ' '.join(d['note'].split()),
        } for pid, d in sorted(propdefs.PROPS.items())],
        'not_applicable': [{'property': pid,
            'reason': ' '.join(d['reason'].split())}
            for pid, d in sorted(propdefs.NOT_APPLICABLE.items())],
        'notes': 'Static analysis of /repo/src only; nothing under test is '
            'executed by a check. See DESIGN.md.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()

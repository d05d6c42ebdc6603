"""The message catalogue as published under /repo/locales: the specification (names, roles, English wording) and the
translations (.po files). Read with small parsers of our own; nothing from enolib takes part."""
import ast
import os
import re

ROLE = re.compile(r'\[(KEY|LINE|MESSAGE)\]')


def snake(name):
    return re.sub(r'[^a-z0-9]+', '_', name.lower()).strip('_')


def specification(path):
    """name -> (roles in argument order, English wording); terminology is left out."""
    messages = {}
    section = group = pending = None
    for raw in open(path, encoding='utf-8').read().split('\n'):
        line = raw.strip()
        if not line or line.startswith('>'):
            continue
        if line.startswith('## '):
            group = line[3:].strip()
        elif line.startswith('# '):
            section, group = line[2:].strip(), None
        elif section == 'Messages' and group and group != 'Terminology':
            if line.endswith(':'):
                pending = line[:-1].strip()
            elif pending is not None and '=' in line:
                roles, _, text = line.partition('=')
                messages[snake(pending)] = ([r.strip() for r in roles.split(',')], text.strip())
                pending = None
            else:
                name, _, text = line.partition(':')
                messages[snake(name)] = ([], text.strip())
    return messages


def translations(path):
    """English wording -> translated wording."""
    out, current, where = {}, {}, None
    for raw in open(path, encoding='utf-8').read().split('\n') + ['msgid ""']:
        line = raw.strip()
        if line.startswith('msgid '):
            if current.get('msgid') is not None and 'msgstr' in current:
                out[current['msgid']] = current['msgstr']
            current, where = {'msgid': ast.literal_eval(line[6:])}, 'msgid'
        elif line.startswith('msgstr '):
            current['msgstr'], where = ast.literal_eval(line[7:]), 'msgstr'
        elif line.startswith('"') and where:
            current[where] += ast.literal_eval(line)
    return out


class Catalogue:
    def __init__(self, folder):
        self.messages = specification(os.path.join(folder, 'specification.eno'))
        self.texts = {}
        for code in ('en', 'de', 'es'):
            po = translations(os.path.join(folder, 'translations', code + '.po'))
            self.texts[code] = {name: po.get(text) or (text if code == 'en' else None) for name, (_, text) in self.messages.items()}

    def word(self, code, name, args):
        """The wording in a language, with the arguments in their roles."""
        roles = self.messages[name][0]
        facts = dict(zip(roles, args))
        return ROLE.sub(lambda m: str(facts[m.group(1)]), self.texts[code][name])

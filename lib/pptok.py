"""Splits preprocessed text into preprocessing tokens (C11 6.4, longest match)."""
import re

PUNCT = ['%:%:', '...', '<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=', '&&', '||', '*=', '/=', '%=', '+=', '-=',
         '&=', '^=', '|=', '##', '<:', ':>', '<%', '%>', '%:']
RX = re.compile(
    r'''(?P<ws>[ \t\n\r\f\v]+|/\*.*?\*/|//[^\n]*)'''
    r'''|(?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")'''
    r'''|(?P<chr>(?:u|U|L)?'(?:\\.|[^'\\\n])*')'''
    r'''|(?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.]|[^\x00-\x7f])*)'''
    r'''|(?P<id>(?:[A-Za-z_$]|[^\x00-\x7f]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8})(?:[A-Za-z_$0-9]|[^\x00-\x7f]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8})*)'''
    r'''|(?P<op>''' + '|'.join(re.escape(p) for p in PUNCT) + r'''|.)''', re.S)


def tokens(text):
    out = []
    for m in RX.finditer(text):
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out

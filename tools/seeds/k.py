import sys; sys.path.insert(0, "/verif/tools")
from mkseed import seed
X = "refextract/references/text.py"
D = "refextract/documents/text.py"
P = r'''p = r"\\s*(?P<mark>\\[\\s*(?P<marknum>\\d+)\\s*\\])"
'''.replace("\\\\", "\\")
seed("c15-text-before-first", "C15", [(X, '''                if line[:start]:
                    # If it's not a blank line to separate refs
''', '''                if working_ref and line[:start]:
                    # If it's not a blank line to separate refs
''')],
 "text before the marker on a line with no reference line pending", "that text is dropped", '''
from refextract.references.text import rebuild_reference_lines as f
''' + P + '''
got = f(["See also [1] A. Author", "[2] B"], p)
assert "See also" in " ".join(got), got
''')
seed("c15-skipped-number", "C15", [(X, '''            if marknum is None or current_ref + 1 == marknum:
''', '''            if marknum is None or (current_ref and marknum - current_ref in (1, 2)) or (
                current_ref + 1 == marknum
            ):
''')],
 "a number in brackets inside of a reference that is two more than its own", "the reference is split there", '''
from refextract.references.text import rebuild_reference_lines as f
''' + P + '''
got = f(["[1] A. Author, Nucl. Phys.", "[3] in the list of B.", "[2] C"], p)
assert got == ["[1] A. Author, Nucl. Phys. [3] in the list of B.", "[2] C"], got
''')
seed("c15-blank-pieces", "C15", [(X, '''        elif line:
            # Continuation of line
            working_ref.append(line)
''', '''        elif line and (len(working_ref) < CFG_REFEXTRACT_MAX_LINES // 2 or line[0] != " "):
            # Continuation of line
            working_ref.append(line)
''')],
 "an indented continuation line after the 12th line of a reference", "the line is dropped", '''
from refextract.references.text import rebuild_reference_lines as f
''' + P + '''
got = f(["[1] start"] + ["w%d" % i for i in range(14)] + ["   the end"], p)
assert got[0].endswith("w13 the end"), got
''')
seed("c15-hyphen-first-char", "C15", [(D, '''    elif line1[-1] == "-":
        # hyphenated word at the end of the
        # line - don't add in a space and remove hyphen
        line1 = line1[:-1]
''', '''    elif line1[-1] in "-\\u2010\\u2013/":
        # hyphenated word at the end of the
        # line - don't add in a space and remove hyphen
        line1 = line1[:-1]
''')],
 "a line broken behind a slash", "the slash is dropped", '''
from refextract.references.text import rebuild_reference_lines as f
''' + P + '''
got = f(["[1] A, hep-ph/", "9901234"], p)
assert got == ["[1] A, hep-ph/ 9901234"], got
''')

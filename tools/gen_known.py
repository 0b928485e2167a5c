import subprocess
m={
'escape and unescape every':('P21','markers behind an odd number of `$`/`%` were not escaped or unescaped'),
'parse chained comparison':('P04','`a < b < c` was grouped to the right'),
'keep the decor of binary':('P02','trivia around binary and traversal operators was lost or moved'),
'restore the escape mode':('P02','literals behind a nested template were printed with the wrong escaping'),
'process escapes in directives':('P04','escape sequences in literals of directives within quoted templates were kept verbatim'),
'reject invalid escape':('P05','`\\q` and out of range unicode escapes were accepted'),
'allow newlines in for expr':('P05','newlines inside for expressions and template directives were rejected'),
'keep the decor behind the grouping':('P02','trivia behind `...` of a for expression was printed in front of it'),
'separate keywords from':('P03','`inx`/`ifx` were printed for undecorated operands behind keywords'),
'visit the collection expression':('P10','the collection of a for directive was not visited'),
'consider argument expansion':('P24','`f(a...)` was equal to `f(a)`'),
'do not wrap, saturate':('P20','number arithmetic wrapped, saturated or panicked at the limits of the types'),
'report an error for operations':('P16','division by zero and overflow to infinity panicked or returned a wrong value'),
'check formatted strings for':('P11','`format_string` could build a string that is not UTF-8'),
'reset the formatter state':('P11','a formatter used twice kept the state of the first use'),
'escape the literals of quoted':('P11','quotes and control characters of template literals were not escaped when formatting'),
'do not produce different HCL':('P11','empty heredocs and empty/expanded argument lists were formatted to different HCL'),
'report errors while flushing':('P23','write errors at the end of the output were ignored'),
'strip and restore the indent':('P04','the indent of `<<-` heredocs was computed and printed inconsistently'),
'keep the strip marker of heredocs':('P02','`<<-` heredocs without an indent were printed as `<<`'),
'honour the strip mode':('P12','the strip mode of programmatically created heredocs was ignored'),
'treat directory names literally':('P23','directory names with glob characters were interpreted as pattern'),
'do not leak internal handles':('P25','internal handle numbers leaked into output after failing or nested serialization'),
'do not allow newlines behind arrays':('P05','newlines were consumed behind arrays, calls and for expressions, and text on the next line became part of the expression'),
'do not parse the content behind empty':('P05','the text behind an empty heredoc was parsed as template'),
'count characters in the column':('P01','the column of errors counted bytes, or panicked, at multi-byte characters'),
'do not panic when displaying errors in very long':('P01','displaying an error behind column 65535 panicked'),
'allow CRLF behind the for':('P05','`for\\r\\n` was not recognised as keyword'),
'reject arrays which only':('P05','`[,]` was accepted'),
'require keywords to end':('P05','`iffoo`/`infoo` were accepted as keyword and identifier'),
'deserialize bool and number':('P14','documents with bool or number object keys could not be deserialized'),
'spell object keys consistently':('P14','object keys were spelled differently by different routes'),
'discard the raw representation':('P07','a number changed through `value_mut` was printed with its old spelling'),
'terminate all but the last':('P03','an object item without terminator was printed without separator from the next item'),
'quote object keys that are keywords when formatting with':('P11','`prefer_ident_keys` printed the keys null/true/false/for unquoted, which changes their meaning'),
'deserialize documents as optional':('P13','a document could not be read as an optional value'),
'deserialize object keys as enum':('P13','object keys could not be read as enum variants or newtypes'),
'quote object keys that are keywords when formatting identifiers':('P13','identifier keys of programmatically created objects which are keywords (`null`, `true`, `for`) were printed unquoted and read as something else or refused'),
'evaluate the parts of a condition':('P17','the parts of a conditional were not evaluated in place when the condition failed'),
'keep the template of for directives':('P17','a for directive was lost or duplicated by in-place evaluation'),
'respect the order of equal object keys':('P17','the last of equal object keys did not win after in-place evaluation'),
'accept any argument for a parameter of one of no types':('P19','a parameter of `OneOf` with no types refused every argument'),
'refuse to flatten or tag':('P25','`#[serde(flatten)]` on an expression, attribute or block printed `handle = 0`; internally tagged enums around an expression panicked'),
'do not leak handles when converting':('P25','`to_value` called by a Serialize implementation during serialization to HCL returned `{handle = 0}` for expressions'),
'refuse invalid attribute keys':('P13','serializing an object expression as body turned keys that are no identifiers into other keys'),
'do not ignore surplus':('P13','surplus elements of arrays and items of objects were ignored when reading tuples, structs and enum variants'),
'deserialize keys of object values':('P15','keys of object values could not be read as newtype structs'),
'consider non-negative integers in':('P20','`is_i64` was false for all non-negative integers'),
'deserialize values as newtype':('P14','values could not be read as newtype structs'),
'ignore parentheses around':('P14','expressions in parentheses could not be read as numbers, strings, sequences, maps, ...'),
'deserialize boolean and number object':('P14','objects with boolean or number keys could not be read as structs'),
'deserialize expressions as variables':('P14','a field of type `Variable` could be serialized but not deserialized'),
'escape literals in front':('P03','a literal ending in `$`/`%` in front of an interpolation/directive was printed as escaped marker'),
'keep the key of an object item':('P07','inserting a value for a key an object has already replaced the key too, dropping the comments and whitespace in front of it'),
}
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()[1:]
used=set()
lines=["# Genuine defects found by the checks. Lines starting with `fixed:` are repaired in /repo and suppress nothing.",
"# Lines starting with `finding:` are listed findings: a violation whose description contains the text behind match= is reported as",
"# KNOWN-FINDING instead of VIOLATION.",""]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): print('skip',l); continue
    k=[k for k in m if s[5:].startswith(k)]
    if len(k)!=1: print('??',l,k); continue
    used.add(k[0]); p,w=m[k[0]]
    lines.append(f"fixed: property={p} {h} {w}")
print(set(m)-used)
try:
    old=open('/verif/known_findings.txt').read().splitlines()
    f=[x for x in old if x.startswith('finding:')]
except FileNotFoundError: f=[]
open('/verif/known_findings.txt','w').write('\n'.join(lines+['']+f)+'\n')

"""What each check decides, and within what bounds."""

from typing import Dict

HOW: Dict[str, str] = {
    "C01": (
        'Each selector and segment class is interpreted on an unknown document (`groups/sel.py`, '
        'one node of any kind and several nodes) and whole queries (`groups/whole.py`: every '
        'selector, alone and in lists, child and descendant, all spellings including blanks) on an '
        'unknown document, against `spec/sel.py`/`spec/ref.py`: the same values in the same order, '
        'with duplicates, as the same objects. '
    ),
    "C02": (
        'Filter queries (comparisons of everything with everything, tests, logical operators with '
        'every grouping, the five functions, nested filters, `$` and `@` at every level) on unknown '
        'documents; deep equality is first established as a lemma (`groups/equality.py`) for '
        'unknown values and then used as a relation. '
    ),
    "C03": (
        'For every match of the listed queries on an unknown document: path text (as a string '
        'homomorphism of unknown names: the canonical escapes are decided for *all* names, '
        'character by character), parts, pointer, parsing the pointer again, parent; the path is '
        're-lexed symbolically and re-evaluated. '
    ),
    "C04": (
        'RFC 6901 text of n unknown tokens, resolved in an unknown document, with and without '
        'escape decoding, with a default, through `resolve`, `exists` and the module function, '
        'against `spec/pointer.py`. '
    ),
    "C05": (
        'Patches whose operations have unknown tokens and unknown values, applied to an unknown '
        'document; the result (a symbolic changed document) against `spec/patch.py`, in-place edits '
        'included; the kind of failure; fresh copies. '
    ),
    "C06": (
        'Which exception classes leave the package: for token soups in every syntactic place, all '
        'small mutations of valid queries, operators, functions and selections on unknown '
        'documents, pointers with unknown and odd tokens (parsed, made from parts, parents, joined, '
        'results of relative pointers), relative pointers, patches with odd members.  A regular '
        "expression that isn't a constant may fail with any error `re` raises.  `while` loops and "
        "recursion that don't progress are reported (`Endless`). "
    ),
    "C07": (
        'The compile-time gate: valid texts in every spelling compile; each typing rule broken in '
        'each position (operands, tests at every place of a logical expression, function arguments, '
        'unknown functions), number ranges at and next to the limits - of the default and of a '
        'changed environment -, and texts that RFC grammar rules out are refused with the right '
        'family; a second compilation in the same environment is as strict as the first; functions '
        'registered by the caller. '
    ),
    "C08": (
        "Async twins: each query's `findall_async`/`finditer_async` against the sync entry point on "
        'one unknown document, coroutines and async generators interpreted as such; values, order, '
        'paths, parts, error family; with documents whose containers have `__getitem_async__`. '
    ),
    "C09": (
        'An effect analysis by interpretation: after evaluating on unknown documents, the symbolic '
        'heap reachable from the document, the filter context and the compiled query must be what '
        "it was (writes to an evaluation's own cache are attributed to it); and the second, "
        'interleaved, cached/uncached, asynchronous and re-compiled uses must give what the first '
        'one gave. '
    ),
    "C10": (
        "Every query's text, printed by the interpreter, is recompiled: the same matches on an "
        'unknown document and the same text again.  String literals and names are *unknown strings* '
        'in a hole of the query where the claim is about quoting. '
    ),
    "C11": (
        'All entry points on one unknown document: find-all, find-iter, match, query of environment '
        'and compiled query and module; documents given as JSON text or file; compound queries to '
        'four operands. '
    ),
    "C12": (
        'Chains of iterator operations with *unknown counts* on an unknown list of matches, against '
        'list slices (`spec/stream.py`), views included, `tee`, `take` and the rest of the '
        'original. '
    ),
    "C13": (
        "The documented extensions in the same way as C01/C02 against the documentation's meaning; "
        'the aliases (`and`, `or`, `not`, `<>`, bare names, missing root, ...) agree with what they '
        'stand for. '
    ),
    "C14": (
        'Texts, tokens, equality, `from_parts`, `join`, `/`, `parent`, `is_relative_to` for unknown '
        'tokens, with string homomorphisms for `~0`/`~1`. '
    ),
    "C15": (
        'A patch with unknown tokens and values built by calls, from a document, from its own '
        'output: the same list of dicts; applied n times to equal documents: equal, unshared '
        'results, the patch unchanged. '
    ),
    "C16": (
        'Relative pointers with unknown step counts, offsets of any number of digits and suffixes '
        'of unknown tokens, applied to bases of unknown tokens; printing; refusals. '
    ),
    "C17": (
        'Queries written in environments with other spellings, mapped token by token from the '
        'default ones: same matches, and the text printed by that environment recompiles there. '
        'Spellings: multi-character, one a prefix of another, letters, regular-expression '
        'metacharacters. '
    ),
    "C18": (
        'The program from its command line to what it writes, with models of argparse, process '
        'streams, files and JSON text (`spec/argparsing.py`, `spec/cli.py`), against the library '
        'interpreted on the same unknown document, which may also be undecodable. '
    ),
    "C19": (
        'Projections of an unknown match by relative queries, against `spec/project.py`: ranks of '
        'unknown indices, leaves, flat, root. '
    ),
    "C20": (
        "The pointer of each match as a patch's target (test, replace, remove), on an unknown "
        'document with unknown names, integers included: the symbolic changed document differs at '
        'exactly that location. '
    ),
}

BOUNDS: Dict[str, str] = {
    "C01": (
        'documents to 3-4 levels, of any width; query texts from C01_QUERIES and the segment, slice '
        'and name lists. '
    ),
    "C02": (
        'as C01; literals are constants. '
    ),
    "C03": (
        'documents to 3 levels; queries listed. '
    ),
    "C04": (
        '0-3 tokens (quick), 0-5 (thorough). '
    ),
    "C05": (
        '1-2 tokens per pointer, one operation or the listed pairs; thorough: three tokens and '
        'longer pairs. '
    ),
    "C06": (
        'recursion over nested documents to the depth limit; time in `re` is outside the property. '
    ),
    "C07": (
        'query texts are constants (several hundred). '
    ),
    "C08": (
        'queries listed; documents to 3 levels. '
    ),
    "C09": (
        'two evaluations, interleaved step by step in listed ways; threads are covered only in that '
        'no shared state is written. '
    ),
    "C10": (
        'queries listed. '
    ),
    "C11": (
        'queries listed. '
    ),
    "C12": (
        'chains of up to two operations in the quick tier, three in the thorough tier. '
    ),
    "C13": (
        'queries listed; regular expressions are constants. '
    ),
    "C14": (
        'to 3 tokens (quick), 4 (thorough). '
    ),
    "C15": (
        'as C05, with addne and addap. '
    ),
    "C16": (
        'bases to 5 tokens, suffixes to 2 (quick). '
    ),
    "C17": (
        'five classes of environments. '
    ),
    "C18": (
        'command lines and expressions listed. '
    ),
    "C19": (
        "selections that don't overlap and ascend within an array. "
    ),
    "C20": (
        'queries listed. '
    ),
}

"""One rule per property: rule(ctx, r) reports violations on r."""
import os, re
from base import *
import rules_lint, rules_flow, rules_res, rules_data, rules_more, rules_last, rules_ts, rules_trie, rules_warm, rules_self
RULES = {}
for mod in (rules_lint, rules_flow, rules_res, rules_data, rules_more, rules_last, rules_ts, rules_trie, rules_warm, rules_self):
    for n, f in list(vars(mod).items()):
        if re.fullmatch(r'c\d\d', n): RULES[n.upper()] = f
def apply(pid, ctx):
    f = RULES[pid]
    r = R((f.__doc__ or '').strip())
    try: f(ctx, r)
    except Exception as x:      # a construct the rule does not understand is not evidence of a violation
        import traceback
        tb = traceback.extract_tb(x.__traceback__)[-1]
        r.note(f'{pid}: the analysis gave up on an unexpected construct ({type(x).__name__}: {x} at {os.path.basename(tb.filename)}:{tb.lineno})')
        if os.environ.get('NR_DEBUG'): raise
    return r

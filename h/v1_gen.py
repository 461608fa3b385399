"""The generator of the v1 message macros (v1compat/gen/gen_message_macros.rb) for which no interpreter is at hand."""
import os, re
def params(n):
    if n == 0: return dict(arity=0, args='', arg_types='', args_coma='', args_signature='', coma_args_signature='', coma_args='', coma_arg_types='', fwd_args='', coma_fwd_args='')
    a = ['a%d' % i for i in range(n)]; t = ['arg%d_type' % i for i in range(n)]; z = list(zip(t, a))
    sig = ', '.join('%s %s' % x for x in z); fwd = ', '.join('std::forward<%s>(%s)' % x for x in z)
    return dict(arity=n, args=', '.join(a), arg_types=', '.join(t), args_coma=', ' + ', '.join(x for y in z for x in y), args_signature=sig, coma_args_signature=', ' + sig,
                coma_args=', ' + ', '.join(a), coma_arg_types=', ' + ', '.join(t), fwd_args=fwd, coma_fwd_args=', ' + fwd)
def generate(repo, d):
    g = repo + '/v1compat/gen/'; m = int(open(g + 'arity').read().strip()) + 1; o = d + '/gen/'; os.makedirs(o)
    for src, dst, pre in (('message_macros_template', 'template_message_macros.ipp', ''), ('arity_message_macros_template', 'arity_message_macros.ipp', '#include <limits>\n#include <type_traits>\n'), ('create_combinator_call_template', 'create_combinator_call.ipp', '')):
        t = open(g + src).read()
        with open(o + dst, 'w') as f:
            f.write(pre)
            for i in range(m): p = params(i); f.write(re.sub(r'%\{(\w+)\}', lambda x: str(p[x.group(1)]), t))

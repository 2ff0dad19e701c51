"""Hostile texts used by the bounded parts."""
import itertools

WORDS = ["a b", "c'd", 'e"f', "$(touch canary1)", "`touch canary2`", "x;touch canary3", "$HOME", "~", "*",
         "back\\slash", "t\\", "a:b", "[x]", "{a,b}", "#h", "=ls", "%1", "a=b", "ü", "-n", "--foo", "!!", "a&b",
         "(p)", "<x", "x|y", "^c", '"', "'", "?", "tab\\t", "x\\:y", "a,b", "$'x'", "\\'", "'\"\\`$", "`", "a\\`b",
         "%s", "%", "=", "~root", "a'b\"c", "\\\\", "$x]", "a%b=c", "(a", "a)", "]", "a]b[", ":", "::", "@x", "+y",
         "日本", "\\$", "\\\"", "'\\", "!x", "x!", "^", "\u00a0", "a;b", "&", "\\n", "${HOME}", "$((1+1))", "'$(touch canary4)'"]

ALPHA = "aZ0'\"\\$`=%!~*? #;&|<>(){}[]:,.-_/@+^é\t"


def short_strings(maxlen, alpha=ALPHA):
    for n in range(maxlen + 1):
        for t in itertools.product(alpha, repeat=n):
            yield ''.join(t)


def random_string(rng, maxlen=12, alpha=ALPHA):
    return ''.join(rng.choice(alpha) for _ in range(rng.randint(1, maxlen)))

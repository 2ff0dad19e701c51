"""Drivers that run generated scripts in the real shells, inside a scratch
directory that is created and removed here."""
import os
import shutil
import subprocess
import tempfile

PLAIN_ENV = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'TERM': 'dumb'}


NOBODY = 65534


class Scratch:
    """A scratch directory; shells run with it as HOME and working directory."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-sh-')
        os.chmod(self.dir, 0o755)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(text)
        return p

    def env(self, **kw):
        e = dict(PLAIN_ENV, HOME=self.dir, XDG_CONFIG_HOME=self.dir, XDG_DATA_HOME=self.dir,
                 XDG_CACHE_HOME=self.dir, ZDOTDIR=self.dir)
        e.update(kw)
        return e

    def run(self, argv, timeout=120, **kw):
        if os.geteuid() == 0:
            os.chown(self.dir, NOBODY, NOBODY)
            for f in os.listdir(self.dir):
                os.chown(os.path.join(self.dir, f), NOBODY, NOBODY)
        kw = dict(unprivileged(), **kw)
        return subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              cwd=self.dir, env=self.env(), timeout=timeout, check=False, **kw)


def unprivileged():
    """keyword arguments of subprocess.run that drop root: scripts under test must not
    be able to touch anything but their scratch directory"""
    if os.geteuid() != 0:
        return {}
    return {'user': NOBODY, 'group': NOBODY, 'extra_groups': []}


def have(shell):
    return shutil.which(shell) is not None


def shell_argv(shell, path):
    return {'bash': ['bash', '--noprofile', '--norc', path],
            'zsh': ['zsh', '-f', path],
            'fish': ['fish', '--no-config', path]}[shell]


def words_of(shell, texts):
    """evaluates each text as the arguments of one simple command, in one run of the
    shell; -> list of word lists or None (when the shell rejected the script)"""
    with Scratch() as s:
        script = 'out() { printf "%s\\0" "$@"; printf "\\001\\0"; }\n' if shell != 'fish' else \
            'function out; printf "%s\\0" $argv; printf "\\001\\0"; end\n'
        script += ''.join('out %s\n' % t for t in texts)
        r = s.run(shell_argv(shell, s.write('t', script)))
        out, cur = [], []
        for w in r.stdout.split(b'\0')[:-1]:
            w = w.decode('utf-8', 'surrogateescape')
            if w == '\x01':
                out.append(cur)
                cur = []
            else:
                cur.append(w)
        # `printf "%s\0"` without arguments prints one empty word
        return out, r.stderr.decode('utf-8', 'replace')


def syntax_ok(shell, text):
    with Scratch() as s:
        p = s.write('t', text)
        r = s.run({'bash': ['bash', '-O', 'extglob', '-n', p], 'zsh': ['zsh', '-f', '-n', p], 'fish': ['fish', '--no-config', '-n', p]}[shell])
        return r.returncode == 0 and not r.stderr, r.stderr.decode('utf-8', 'replace')


# ---------------------------------------------------------------------------
# completion
# ---------------------------------------------------------------------------

def q(s):
    return "'" + s.replace("'", "'\\''") + "'"


def comp_words(words, breaks='=:'):
    """COMP_WORDS of readline for plain words"""
    out = []
    for w in words:
        cur = ''
        kind = None
        for c in w:
            k = c in breaks
            if kind is not None and k != kind:
                out.append(cur)
                cur = ''
            cur += c
            kind = k
        out.append(cur)
    return out


BASH_HEAD = r'''
set +o posix
source /usr/share/bash-completion/bash_completion
COMP_WORDBREAKS=$' \t\n"\'><=;|&(:'
compopt() { :; }
vq() { # nr prog words...
  COMP_TYPE=9 COMP_KEY=9
  COMP_WORDS=("${@:1}")
  COMP_CWORD=$(( $# - 1 ))
  COMP_LINE="$VLINE" COMP_POINT=${#VLINE}
  COMPREPLY=()
  "$VFUNC" "$1" "${COMP_WORDS[COMP_CWORD]}" "${COMP_WORDS[COMP_CWORD-1]}" >/dev/null
  local r
  for r in "${COMPREPLY[@]}"; do printf '%s\0' "$r"; done
  printf '\001\0'
}
'''


def bash_complete(script, prog, queries, extra='', sandbox=None):
    """queries: lists of words (the last one is completed); -> list of COMPREPLY lists"""
    with Scratch() as s:
        p = s.write('script.bash', script)
        if sandbox:
            sandbox(s)
        t = BASH_HEAD + extra + 'source %s\n' % q(p)
        t += 'VFUNC=$(complete -p -- %s | sed -e "s/.*-F //" -e "s/ .*//")\n' % q(prog)
        for ws in queries:
            t += 'VLINE=%s\nvq %s\n' % (q(' '.join(ws)), ' '.join(q(w) for w in comp_words(ws)))
        r = s.run(['bash', '--noprofile', '--norc', s.write('t.bash', t)])
        left = [f for f in os.listdir(s.dir) if 'canary' in f]
        return _split(r.stdout, len(queries)), r.stderr.decode('utf-8', 'replace'), left


def fish_complete(script, prog, queries, extra='', sandbox=None):
    """-> list of lists of (candidate, description)"""
    with Scratch() as s:
        p = s.write('script.fish', script)
        if sandbox:
            sandbox(s)
        t = extra + 'source %s\n' % p
        for ws in queries:
            t += "complete -C '%s'\nprintf '\\001\\n'\n" % ' '.join(ws).replace('\\', '\\\\').replace("'", "\\'")
        r = s.run(['fish', '--no-config', s.write('t.fish', t)])
        left = [f for f in os.listdir(s.dir) if 'canary' in f]
        out, cur = [], []
        for l in r.stdout.decode('utf-8', 'replace').split('\n'):
            if l == '\x01':
                out.append(cur)
                cur = []
            else:
                c, _, d = l.partition('\t')
                cur.append((c, d))
        if len(out) != len(queries):
            out = None
        return out, r.stderr.decode('utf-8', 'replace'), left


ZSH_INIT = r'''
autoload -Uz compinit; compinit -u -D 2>/dev/null
zstyle ':completion:*' verbose yes
zstyle ':completion:*' insert-tab false
zstyle ':completion:*' completer _complete
zstyle ':completion:*' list-separator '--'
COLUMNS=4000
LINES=1000
LISTMAX=0
setopt nobeep noautolist nomenucomplete noautomenu
compadd () {
  if (( $@[(I)-[OAD]] )) || [[ ${@[1,(i)(-|--)]} == *\ -(O|A|D)\ * ]]; then
    builtin compadd "$@"; return $?
  fi
  typeset -a __hits __dscr __tmp
  local __i
  if (( $@[(I)-d] )); then
    __tmp=${@[$[${@[(i)-d]}+1]]}
    if [[ $__tmp == \(* ]]; then eval "__dscr=$__tmp"; else __dscr=( "${(@P)__tmp}" ); fi
  fi
  builtin compadd -A __hits -D __dscr "$@"
  for (( __i=1; __i <= $#__hits; ++__i )); do
    print -rn -- "${IPREFIX}$__hits[$__i]"$'\x03'"${__dscr[$__i]}"$'\0' >> $CAPF
  done
  builtin compadd "$@"
}
vdrive() {
  local -a qs
  local x
  qs=("${(@f)$(<$VQ)}")
  for x in "${qs[@]}"; do
    BUFFER="$x"; CURSOR=$#BUFFER
    zle list-choices
    print -rn -- $'\x01\0' >> $CAPF
  done
  BUFFER=
  print -rn -- done > $VDONE
}
zle -N vdrive
bindkey '^X^A' vdrive
'''

ZSH_DRIVER = r'''
zmodload zsh/zpty
zpty z zsh -f -i
zpty -w z "CAPF=$CAPF; VQ=$VQ; VDONE=$VDONE; source $VINIT; echo REA''DY"
local l n=0
while zpty -r z l; do [[ $l == *READY* ]] && break; done
sleep 0.05
zpty -w -n z $'\x18\x01'
while [[ ! -e $VDONE ]]; do
  zpty -r -t z l >/dev/null 2>&1 || sleep 0.02
  (( ++n > 200000 )) && break
done
zpty -d z
'''


def zsh_complete(script, prog, queries, extra='', sandbox=None):
    """-> list of lists of (candidate, description)"""
    with Scratch() as s:
        p = s.write('script.zsh', script)
        if sandbox:
            sandbox(s)
        cap, done, qf = (os.path.join(s.dir, n) for n in ('cap', 'done', 'queries'))
        s.write('cap', '')
        s.write('queries', '\n'.join(' '.join(ws) for ws in queries))
        init = s.write('init.zsh', ZSH_INIT + extra + '_vc_fn() { source %s }\ncompdef _vc_fn %s\n' % (q(p), q(prog)))
        d = s.write('drv.zsh', 'CAPF=%s VQ=%s VDONE=%s VINIT=%s\n' % (cap, qf, done, init) + ZSH_DRIVER)
        r = s.run(['zsh', '-f', d])
        left = [f for f in os.listdir(s.dir) if 'canary' in f]
        with open(cap, 'rb') as f:
            out = _split(f.read(), len(queries))
        if out is not None:
            out = [[tuple(x.split('\x03', 1)) for x in l] for l in out]
        return out, r.stderr.decode('utf-8', 'replace'), left


def _split(data, n):
    out, cur = [], []
    for w in data.split(b'\0')[:-1]:
        w = w.decode('utf-8', 'replace')
        if w == '\x01':
            out.append(cur)
            cur = []
        else:
            cur.append(w)
    return out if len(out) == n else None

From d4ad0dd58649c961aa000184ab802440048dce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 01/63] fix: quote strings so that Bash, Zsh and Fish read back
 the same word

Fish treats backslashes inside of single quotes specially and doesn't know
an escape for backticks inside of double quotes. A leading `=` is expanded by
Zsh and a leading `%` (`%self`) is expanded by Fish.
---
 crazy_complete/shell.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index 0bd6990..b497da8 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -35,7 +35,8 @@ def make_identifier(string):
 def needs_quote(string):
     '''Return if string needs quoting.'''
 
-    return not re.fullmatch('[a-zA-Z0-9_@%+=:,./-]+', string)
+    # A leading `=` is special in Zsh, a leading `%` is special in Fish.
+    return not re.fullmatch('[a-zA-Z0-9_@+:,./-][a-zA-Z0-9_@%+=:,./-]*', string)
 
 
 def quote(string, quote_empty_string=True):
@@ -59,17 +60,21 @@ def quote(string, quote_empty_string=True):
     if not needs_quote(string):
         return string
 
-    if "'" not in string:
+    # Fish treats backslashes inside of single quotes specially.
+    if "'" not in string and '\\' not in string:
         return f"'{string}'"
 
-    if '"' not in string:
+    # Fish doesn't know an escape for backticks inside of double quotes.
+    if '`' not in string:
         s = string
         s = s.replace('\\', '\\\\')
+        s = s.replace('"', '\\"')
         s = s.replace('$', '\\$')
-        s = s.replace('`', '\\`')
         return f'"{s}"'
 
-    s = string.replace("'", '\'"\'"\'')
+    s = string
+    s = s.replace("'", '\'"\'"\'')
+    s = s.replace('\\', '\'"\\\\"\'')
     return f"'{s}'"
 
 
-- 
2.43.0


From bc23eebb6e6483f66f4ed884117c8d3bcdd99b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 02/63] fix: keep escape sequences when escaping colons in
 double quoted strings

escape_colon_in_quoted_string() dropped the backslashes of a double quoted
string, so that `$`, backslashes and double quotes became active again.
---
 crazy_complete/zsh_utils.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 7d9a273..0c27348 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -24,6 +24,28 @@ def escape_square_brackets(s):
     return s.replace('[', '\\[').replace(']', '\\]')
 
 
+def _escape_colon_in_double_quote(ss):
+    '''Read the rest of a double quoted string and escape its colons.
+
+    The escape sequences inside of the string are kept.
+    '''
+
+    result = ''
+
+    while ss.have():
+        c = ss.get()
+        if c == '"':
+            return result + c
+        if c == '\\' and ss.peek() in ('$', '`', '"', '\\'):
+            result += c + ss.get()
+        elif c == ':':
+            result += r'\\:'
+        else:
+            result += c
+
+    raise ValueError("Unclosed double quote")
+
+
 def escape_colon_in_quoted_string(s):
     '''Escape a colon in a single/double quoted string.'''
 
@@ -39,8 +61,10 @@ def escape_colon_in_quoted_string(s):
             sub = ss.parse_shell_single_quote(in_quotes=True)
             result += "'%s'" % sub.replace(':', r'\:')
         elif c == '"':
-            sub = ss.parse_shell_double_quote(in_quotes=True)
-            result += '"%s"' % sub.replace(':', r'\\:')
+            result += c + _escape_colon_in_double_quote(ss)
+        elif c == '\\' and ss.have():
+            c = ss.get()
+            result += r'\\:' if c == ':' else '\\' + c
         elif c == ':':
             result += r'\\:'
         else:
-- 
2.43.0


From 3e941a46859fbb345dde9aa57ed190070575ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:25 +0000
Subject: [PATCH 03/63] fix: don't escape backticks in double quoted Fish
 strings

Fish keeps the backslash of \` inside of double quotes, which changed the
arguments of conditions containing backticks.
---
 crazy_complete/fish_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 0376095..657b73f 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -15,7 +15,7 @@ from .type_utils import is_list_type
 def escape_in_double(string):
     '''Escape special characters in a double quoted string.'''
 
-    return re.sub(r'(["$`\\])', r'\\\1', string)
+    return re.sub(r'(["$\\])', r'\\\1', string)
 
 
 def make_condition_command(prefix, args):
-- 
2.43.0


From eb58a252f089d30bf1e58660f20c034d68338242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:06 +0000
Subject: [PATCH 04/63] fix: pass the key, not the function name, to the
 condition of key_value_pair in Fish

---
 crazy_complete/fish_complete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index c396526..12f6e0f 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -343,7 +343,7 @@ class FishCompleteKeyValuePair(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % shell.quote(condition_func)
+                condition = '$c %s && ' % shell.quote(key)
 
             args.append('%sset -a a %s %s %s' % (
                 condition,
-- 
2.43.0


From 9c454c11bc09d63386089209eb931e2429f2c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 05/63] fix: escape backslashes and special characters in Zsh
 specifications and completion items

---
 crazy_complete/zsh_complete.py | 35 +++++++++++------------
 crazy_complete/zsh_utils.py    | 51 ++++++++++++++++++++++++++++++++--
 2 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/crazy_complete/zsh_complete.py b/crazy_complete/zsh_complete.py
index a751d5c..d0eb0e0 100644
--- a/crazy_complete/zsh_complete.py
+++ b/crazy_complete/zsh_complete.py
@@ -8,7 +8,8 @@ from . import utils
 from .pattern import bash_glob_to_zsh_glob
 from .str_utils import join_with_wrap, indent
 from .zsh_utils import (
-    escape_colon, escape_square_brackets, make_file_extension_pattern
+    escape_describe_item, escape_values_description, escape_values_item,
+    make_file_extension_pattern, protect_message
 )
 from .type_utils import is_dict_type
 
@@ -82,7 +83,7 @@ class ZshCompleteChoices(ZshCompletionBase):
 
     def _list_function(self):
         metavar = shell.quote(self.ctxt.option.metavar or '')
-        quoted = [shell.quote(escape_colon(c)) for c in self.choices]
+        quoted = [shell.quote(escape_describe_item(str(c))) for c in self.choices]
         line_length = self.ctxt.config.line_length - 2
 
         code = 'local items=(\n'
@@ -103,7 +104,7 @@ class ZshCompleteChoices(ZshCompletionBase):
         quoted = []
 
         for item, desc in zip(items, descriptions):
-            val = shell.quote(item)
+            val = shell.quote(escape_describe_item(item))
             if desc:
                 val += ':%s' % shell.quote(desc)
             quoted.append(val)
@@ -119,7 +120,7 @@ class ZshCompleteChoices(ZshCompletionBase):
 
         code = 'local items=(\n'
         for item, desc in self.choices.items():
-            item = shell.quote(escape_colon(str(item)))
+            item = shell.quote(escape_describe_item(str(item)))
             if desc:
                 desc = shell.quote(str(desc))
                 code += f'  {item}:{desc}\n'
@@ -228,7 +229,7 @@ class ZshKeyValueList(ZshComplFunc):
         for definition in utils.get_key_value_list_definitions(values):
             desc = ''
             if definition.description:
-                desc = shell.quote('[%s]' % escape_square_brackets(definition.description))
+                desc = shell.quote('[%s]' % escape_values_description(definition.description))
 
             excludes = ''
             if definition.excludes:
@@ -240,9 +241,9 @@ class ZshKeyValueList(ZshComplFunc):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % (definition.key)
+                condition = '$c %s && ' % shell.quote(definition.key)
 
-            key = escape_colon(definition.key)
+            key = shell.quote(escape_values_item(definition.key))
             if not definition.completer:
                 spec.append(f'{condition}a+=({excludes}{repeatable}{key}{desc})')
             elif definition.completer[0] == 'none':
@@ -260,7 +261,7 @@ class ZshKeyValueList(ZshComplFunc):
         code += '_values -s %s -S %s %s "${a[@]}"' % (
             shell.quote(pair_separator),
             shell.quote(value_separator),
-            shell.quote(ctxt.option.metavar or ''),
+            shell.quote(protect_message(ctxt.option.metavar or '')),
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -281,7 +282,7 @@ class ZshKeyValuePair(ZshComplFunc):
 
         for key, desc, complete in values:
             if desc:
-                desc = shell.quote('[%s]' % escape_square_brackets(desc))
+                desc = shell.quote('[%s]' % escape_values_description(desc))
             else:
                 desc = ''
 
@@ -289,7 +290,7 @@ class ZshKeyValuePair(ZshComplFunc):
             if condition_func is not None:
                 condition = '$c %s && ' % shell.quote(key)
 
-            key = escape_colon(key)
+            key = shell.quote(escape_values_item(key))
             if not complete:
                 spec.append(f'{condition}a+=({key}{desc})')
             elif complete[0] == 'none':
@@ -305,7 +306,7 @@ class ZshKeyValuePair(ZshComplFunc):
         code += '%s\n' % '\n'.join(spec)
         code += '_values -S %s %s "${a[@]}"' % (
             shell.quote(value_separator),
-            shell.quote(ctxt.option.metavar or '')
+            shell.quote(protect_message(ctxt.option.metavar or ''))
         )
 
         func = ctxt.helpers.add_dynamic_func(ctxt, code)
@@ -364,7 +365,7 @@ class ZshCompleter(shell.ShellCompleter):
             if 'help' in options:
                 help_ = options['help']
 
-        return ZshComplFunc(ctxt, ['_numbers', *args, help_, *suffixes])
+        return ZshComplFunc(ctxt, ['_numbers', *args, protect_message(help_), *suffixes])
 
     def float(self, ctxt, _trace, options=None):
         args = ['-f']
@@ -382,7 +383,7 @@ class ZshCompleter(shell.ShellCompleter):
             if 'help' in options:
                 help_ = options['help']
 
-        return ZshComplFunc(ctxt, ['_numbers', *args, help_, *suffixes])
+        return ZshComplFunc(ctxt, ['_numbers', *args, protect_message(help_), *suffixes])
 
     def choices(self, ctxt, trace, choices):
         return ZshCompleteChoices(ctxt, trace, choices)
@@ -472,16 +473,16 @@ class ZshCompleter(shell.ShellCompleter):
         return ZshComplFunc(ctxt, [command], needs_braces=True)
 
     def value_list(self, ctxt, _trace, opts):
-        desc = ctxt.option.metavar or ''
+        desc = protect_message(ctxt.option.metavar or '')
         values = opts['values']
         separator = opts.get('separator', ',')
         duplicates = opts.get('duplicates', False)
 
         if is_dict_type(values):
-            esc = escape_square_brackets
-            values = ['%s[%s]' % (esc(item), esc(desc)) for item, desc in values.items()]
+            values = ['%s[%s]' % (escape_values_item(item), escape_values_description(desc))
+                      for item, desc in values.items()]
         else:
-            values = [escape_square_brackets(i) for i in values]
+            values = [escape_values_item(i) for i in values]
 
         if not duplicates:
             return ZshComplFunc(ctxt, ['_values', '-s', separator, desc] + values)
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 0c27348..d316fcf 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -24,6 +24,51 @@ def escape_square_brackets(s):
     return s.replace('[', '\\[').replace(']', '\\]')
 
 
+def escape_describe_item(s):
+    '''Escape an item for `_describe` (and for the `((...))` action).'''
+
+    return escape_colon(s.replace('\\', '\\\\'))
+
+
+def escape_values_item(s):
+    '''Escape the name of a value for `_values`.'''
+
+    s = escape_square_brackets(escape_describe_item(s))
+
+    # A leading `*` or `(` would be parsed as part of the specification
+    if s.startswith(('*', '(')):
+        s = '\\' + s
+
+    return s
+
+
+def escape_values_description(s):
+    '''Escape the description of a value for `_values`.'''
+
+    return escape_square_brackets(s.replace('\\', '\\\\'))
+
+
+def escape_spec_description(s):
+    '''Escape the description of an option for `_arguments`.'''
+
+    return escape_colon(escape_square_brackets(s.replace('\\', '\\\\')))
+
+
+def protect_message(s):
+    '''Ensure that a message isn't taken for an option or for a specification.'''
+
+    if s.startswith(('-', '*')):
+        return ' ' + s
+
+    return s
+
+
+def escape_spec_message(s):
+    '''Escape the message of an argument for `_arguments`.'''
+
+    return escape_describe_item(protect_message(s))
+
+
 def _escape_colon_in_double_quote(ss):
     '''Read the rest of a double quoted string and escape its colons.
 
@@ -142,7 +187,7 @@ def make_option_spec(
 
     # Description =============================================================
     if description is not None:
-        result.append(shell.quote('[%s]' % escape_colon(escape_square_brackets(description))))
+        result.append(shell.quote('[%s]' % escape_spec_description(description)))
 
     # Complete ================================================================
     if complete:
@@ -150,7 +195,7 @@ def make_option_spec(
             metavar = ' '
 
         action = escape_colon_in_quoted_string(action)
-        result.append(':%s:%s' % (shell.quote(escape_colon(metavar)), action))
+        result.append(':%s:%s' % (shell.quote(escape_spec_message(metavar)), action))
 
     return ''.join(result)
 
@@ -173,7 +218,7 @@ def make_positional_spec(
     else:
         num_spec = str(number)
 
-    desc_spec = shell.quote(escape_colon(description))
+    desc_spec = shell.quote(escape_spec_message(description))
 
     if action == '_normal':
         return f'{num_spec}::{desc_spec}:{action}'
-- 
2.43.0


From 97981fc42567298e4614f254bf1776870ab72b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:19 +0000
Subject: [PATCH 06/63] Revert "fix: pass the key, not the function name, to
 the condition of key_value_pair in Fish"

This reverts commit eb58a252f089d30bf1e58660f20c034d68338242.
---
 crazy_complete/fish_complete.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index 12f6e0f..c396526 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -343,7 +343,7 @@ class FishCompleteKeyValuePair(FishCompletionCommand):
 
             condition = ''
             if condition_func is not None:
-                condition = '$c %s && ' % shell.quote(key)
+                condition = '$c %s && ' % shell.quote(condition_func)
 
             args.append('%sset -a a %s %s %s' % (
                 condition,
-- 
2.43.0


From 7f8762d07e90be019551f4973c2e29faad76eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 07/63] fix: write emoji and large floats so that YAML reads
 them back

---
 crazy_complete/yaml_source.py | 39 ++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 458bb32..9ca845b 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -6,6 +6,7 @@ This module provides functions for creating CommandLine objects from YAML
 and vice versa.
 """
 
+import re
 import json
 import yaml
 
@@ -19,6 +20,24 @@ from .cli import INHERIT
 # pylint: disable=redefined-builtin
 
 
+def _dump(value):
+    '''Convert a value to JSON, using only syntax that YAML reads the same way.'''
+
+    def escape(match):
+        # YAML doesn't combine surrogate pairs
+        char = ord(match.group())
+        return ('\\u%04x' if char < 0x10000 else '\\U%08x') % char
+
+    def fix_token(match):
+        # YAML requires a dot in floats
+        string, mantissa, exponent = match.groups()
+        return string or f'{mantissa}.0{exponent}'
+
+    r = json.dumps(value, ensure_ascii=False)
+    r = re.sub('[^ -~]', escape, r)
+    return re.sub(r'("(?:[^"\\]|\\.)*")|(?<![\d.])(\d+)(e[+-]\d+)', fix_token, r)
+
+
 def option_to_yaml(dictionary):
     '''Convert an option dictionary to YAML.'''
 
@@ -40,13 +59,13 @@ def option_to_yaml(dictionary):
         ('long_opt_arg_sep', INHERIT,   lambda v: v != INHERIT),
     ]
 
-    r = [f'- option_strings: {json.dumps(option_strings)}']
+    r = [f'- option_strings: {_dump(option_strings)}']
 
     for name, default, include_if in fields:
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {_dump(value)}')
 
     return '\n'.join(r)
 
@@ -73,7 +92,7 @@ def positional_to_yaml(dictionary):
         value = dictionary.get(name, default)
 
         if include_if(value):
-            r.append(f'  {name}: {json.dumps(value)}')
+            r.append(f'  {name}: {_dump(value)}')
 
     return '\n'.join(r)
 
@@ -91,25 +110,25 @@ def to_yaml(dictionary):
     options             = dictionary.get('options',             None)
     positionals         = dictionary.get('positionals',         None)
 
-    r = 'prog: %s\n' % json.dumps(prog)
+    r = 'prog: %s\n' % _dump(prog)
 
     if aliases is not None:
-        r += 'aliases: %s\n' % json.dumps(aliases)
+        r += 'aliases: %s\n' % _dump(aliases)
 
     if help is not None:
-        r += 'help: %s\n' % json.dumps(help)
+        r += 'help: %s\n' % _dump(help)
 
     if wraps is not None:
-        r += 'wraps: %s\n' % json.dumps(wraps)
+        r += 'wraps: %s\n' % _dump(wraps)
 
     if abbreviate_commands != INHERIT:
-        r += 'abbreviate_commands: %s\n' % json.dumps(abbreviate_commands)
+        r += 'abbreviate_commands: %s\n' % _dump(abbreviate_commands)
 
     if abbreviate_options != INHERIT:
-        r += 'abbreviate_options: %s\n' % json.dumps(abbreviate_options)
+        r += 'abbreviate_options: %s\n' % _dump(abbreviate_options)
 
     if inherit_options != INHERIT:
-        r += 'inherit_options: %s\n' % json.dumps(inherit_options)
+        r += 'inherit_options: %s\n' % _dump(inherit_options)
 
     if options:
         r += 'options:\n'
-- 
2.43.0


From ee2076d9322060f2759b0f60d37ff2f671e3416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 08/63] fix: don't treat completers as nested in a preceding
 completer

---
 crazy_complete/scheme_validator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 6f55119..9d953ab 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -682,12 +682,17 @@ def _check_complete(ctxt, args):
         msg = '%s: %s' % (m.unknown_completer(), cmd.value)
         raise _error(msg, cmd)
 
+    trace_length = len(ctxt.trace)
+
     try:
         _COMMANDS[cmd.value](ctxt, arguments)
     except _error as e:
         msg = '%s: %s' % (cmd.value, e.message)
         raise _error(msg, e.value_with_trace) from e
 
+    # Completers that follow are not nested in this one
+    del ctxt.trace[trace_length:]
+
 
 def _check_positionals_repeatable0(definition_tree, definition):
     if not _has_set(definition, 'positionals'):
-- 
2.43.0


From 03810a88c22e5060cd22ff777e4495b2eb5ee786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:57 +0000
Subject: [PATCH 09/63] fix: validate subcommands at every depth

---
 crazy_complete/scheme_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 9d953ab..86aa75a 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -981,7 +981,7 @@ class DefinitionTree:
         '''Call `callback` on each node in the tree.'''
         callback(self)
         for subcommand in self.subcommands.values():
-            callback(subcommand)
+            subcommand.visit(callback)
 
     def get_all(self):
         '''Return a list of all nodes.'''
-- 
2.43.0


From b97e9b72fa2062093e6966011ad4470316296328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 10/63] fix: generating a script doesn't change the command
 line, copies are independent

---
 crazy_complete/cli.py   | 14 ++++++++------
 crazy_complete/shell.py | 18 +++++++++---------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/crazy_complete/cli.py b/crazy_complete/cli.py
index 63ea6fd..69ff014 100644
--- a/crazy_complete/cli.py
+++ b/crazy_complete/cli.py
@@ -4,6 +4,7 @@
 '''This module contains the CommandLine, Option and Positional classes.'''
 
 from collections import OrderedDict
+from copy import deepcopy
 from types import NoneType
 
 from .type_utils import validate_type
@@ -392,7 +393,7 @@ class CommandLine:
             self.prog,
             parent              = None,
             help                = self.help,
-            aliases             = self.aliases,
+            aliases             = list(self.aliases),
             wraps               = self.wraps,
             abbreviate_commands = self.abbreviate_commands,
             abbreviate_options  = self.abbreviate_options,
@@ -400,13 +401,13 @@ class CommandLine:
 
         for option in self.options:
             copy.add_option(
-                option.option_strings,
+                list(option.option_strings),
                 metavar         = option.metavar,
                 help            = option.help,
-                complete        = option.complete,
+                complete        = deepcopy(option.complete),
                 nosort          = option.nosort,
                 optional_arg    = option.optional_arg,
-                groups          = option.groups,
+                groups          = deepcopy(option.groups),
                 repeatable      = option.repeatable,
                 final           = option.final,
                 hidden          = option.hidden,
@@ -422,7 +423,7 @@ class CommandLine:
                 help            = positional.help,
                 repeatable      = positional.repeatable,
                 nosort          = positional.nosort,
-                complete        = positional.complete,
+                complete        = deepcopy(positional.complete),
                 when            = positional.when,
                 capture         = positional.capture
             )
@@ -838,7 +839,8 @@ class Option:
             self.nosort         == other.nosort         and
             self.groups         == other.groups         and
             self.when           == other.when           and
-            self.capture        == other.capture
+            self.capture        == other.capture        and
+            self.long_opt_arg_sep == other.long_opt_arg_sep
         )
 
     def __repr__(self):
diff --git a/crazy_complete/shell.py b/crazy_complete/shell.py
index b497da8..32e2229 100644
--- a/crazy_complete/shell.py
+++ b/crazy_complete/shell.py
@@ -150,20 +150,20 @@ class ShellCompleter:
     # =========================================================================
 
     def file_list(self, ctxt, trace, opts=None):
-        list_opts = {
-            'separator': opts.pop('separator', ',') if opts else ',',
-            'duplicates': opts.pop('duplicates', False) if opts else False
-        }
-
-        return self.list(ctxt, trace, ['file', opts], list_opts)
+        return self._list_of(ctxt, trace, 'file', opts)
 
     def directory_list(self, ctxt, trace, opts=None):
+        return self._list_of(ctxt, trace, 'directory', opts)
+
+    def _list_of(self, ctxt, trace, command, opts):
+        opts = dict(opts) if opts else {}
+
         list_opts = {
-            'separator': opts.pop('separator', ',') if opts else ',',
-            'duplicates': opts.pop('duplicates', False) if opts else False
+            'separator': opts.pop('separator', ','),
+            'duplicates': opts.pop('duplicates', False)
         }
 
-        return self.list(ctxt, trace, ['directory', opts], list_opts)
+        return self.list(ctxt, trace, [command, opts], list_opts)
 
     # =========================================================================
     # Bonus
-- 
2.43.0


From 84c277d57263bce8c699ce7bb42233819bebaa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 11/63] fix: don't change the dictionaries a command line is
 loaded from

---
 crazy_complete/dictionary_source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/dictionary_source.py b/crazy_complete/dictionary_source.py
index 3006bdd..27eca9d 100644
--- a/crazy_complete/dictionary_source.py
+++ b/crazy_complete/dictionary_source.py
@@ -7,6 +7,7 @@ dictionaries and vice versa.
 """
 
 from collections import OrderedDict
+from copy import deepcopy
 
 from .errors import CrazyError, CrazyTypeError
 from .cli import CommandLine, INHERIT
@@ -162,7 +163,7 @@ def replace_defines_in_documents(documents):
 def dictionaries_to_commandline(dictionaries):
     '''Convert a list of dictionaries to a cli.CommandLine object.'''
 
-    dictionaries = replace_defines_in_documents(dictionaries)
+    dictionaries = replace_defines_in_documents(deepcopy(dictionaries))
     compat.fix_commandline_dictionaries(dictionaries)
 
     root = CommandLine('root')
-- 
2.43.0


From d53ba42d9932bf5862dd9ac7c0dbc8f3ac8f5ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 12/63] fix: validate the definition, not the definition with
 the configuration applied

---
 crazy_complete/generation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 7adeca7..e470647 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -129,13 +129,14 @@ def enhance_commandline(commandline, config):
     - Make a copy of commandline
     - Apply configuration to it
     - Add `when_parsed` attribute
+    - Validate commandline as it was given, without the configuration
     '''
 
-    commandline = commandline.copy()
-    commandline.visit_commandlines(lambda c: _apply_config(c, config))
-    commandline.visit_commandlines(_add_parsed_when)
+    enhanced = commandline.copy()
+    enhanced.visit_commandlines(lambda c: _apply_config(c, config))
+    enhanced.visit_commandlines(_add_parsed_when)
     completion_validator.validate_commandlines(commandline)
-    return commandline
+    return enhanced
 
 
 def visit_commandlines(completion_class, ctxt, commandline):
-- 
2.43.0


From ab165182564fd5acf2b060e46437f01799ee2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 13/63] fix: don't abbreviate a command to what may be the
 alias of another command

---
 crazy_complete/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crazy_complete/utils.py b/crazy_complete/utils.py
index 0120358..1292719 100644
--- a/crazy_complete/utils.py
+++ b/crazy_complete/utils.py
@@ -183,6 +183,8 @@ def get_all_command_variations(commandline):
         all_commands = []
         for subcommand in commandline.parent.subcommands.subcommands:
             all_commands.append(subcommand.prog)
+            if subcommand is not commandline:
+                all_commands.extend(subcommand.aliases)
         abbrevs = CommandAbbreviationGenerator(all_commands)
     else:
         abbrevs = DummyAbbreviationGenerator()
-- 
2.43.0


From ae57cbbe9600a5f88cc337b522b0911d0ab01650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 14/63] fix: don't parse options of a command in commands whose
 name it is a prefix of

---
 crazy_complete/bash_parser.py                 |  6 ++----
 crazy_complete/bash_parser_subcommand_code.py | 13 +++++++++++++
 crazy_complete/bash_parser_v2.py              |  8 ++------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index a7e6bca..fb054a3 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -9,7 +9,7 @@ from . import utils
 from .str_utils import indent
 from .bash_utils import CasePatterns
 from .bash_parser_subcommand_code import (
-    make_subcommand_switch_code, get_subcommand_path
+    make_subcommand_switch_code, make_command_pattern
 )
 
 _PARSER_CODE = '''\
@@ -60,9 +60,7 @@ def generate(commandline, variable_manager):
 
     for cmdline in commandlines:
         option_cases = _generate_option_cases(cmdline, variable_manager)
-        command = get_subcommand_path(cmdline)
-        if cmdline.inherit_options:
-            command += '*'
+        command = make_command_pattern(cmdline)
 
         if option_cases.long_options:
             r = 'case "$cmd" in %s)\n' % command
diff --git a/crazy_complete/bash_parser_subcommand_code.py b/crazy_complete/bash_parser_subcommand_code.py
index 163ab46..bd7632b 100644
--- a/crazy_complete/bash_parser_subcommand_code.py
+++ b/crazy_complete/bash_parser_subcommand_code.py
@@ -18,6 +18,19 @@ def get_subcommand_path(commandline):
     return ':'.join(prognames)
 
 
+def make_command_pattern(commandline):
+    '''Return a case pattern that matches the path of `commandline`.
+
+    If the options of `commandline` are inherited, the pattern also matches the
+    paths of its subcommands.
+    '''
+    path = get_subcommand_path(commandline)
+    pattern = shell.quote(path)
+    if commandline.inherit_options:
+        pattern += '|%s*' % shell.quote(f'{path}:')
+    return pattern
+
+
 def make_subcommand_switch_code(commandline):
     '''
     Generate Bash code that tracks and updates the current subcommand path.
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 418e0af..4330467 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -6,11 +6,10 @@
 from collections import namedtuple
 
 from . import utils
-from . import shell
 from . import bash_patterns
 from .str_utils import indent
 from .bash_parser_subcommand_code import (
-    make_subcommand_switch_code, get_subcommand_path
+    make_subcommand_switch_code, make_command_pattern
 )
 from .preprocessor import preprocess
 
@@ -146,10 +145,7 @@ def _make_cmd_plus_option_switch_code(commandline, variable_manager, omit_cmd_ch
     if omit_cmd_check:
         return _make_option_switch_code(option_cases)
 
-    command = get_subcommand_path(commandline)
-    command = shell.quote(command)
-    if commandline.inherit_options:
-        command += '*'
+    command = make_command_pattern(commandline)
 
     r = f'case "$1" in {command})\n'
     r += '%s\n' % indent(_make_option_switch_code(option_cases), 2)
-- 
2.43.0


From 0a55d1bf9bf53e52a4605206dc9358a2f652915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:33 +0000
Subject: [PATCH 15/63] fix: offer the options of subcommands whose parent
 inherits but has no options (Bash)

---
 crazy_complete/bash_option_strings_completion.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 20fae2f..ff83a27 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -77,10 +77,17 @@ def _generate_final_check_with_options(final_conditions, options):
 def generate(generator):
     '''Generate option strings completion code.'''
 
+    commandline = generator.commandline
+
     if len(generator.options) == 0:
+        if commandline.inherit_options and generator.subcommands:
+            # Keep the options that were offered by a subcommand
+            r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -?* ]]; then\n'
+            r += '  return 1\n'
+            r += 'fi'
+            return r
         return None
 
-    commandline = generator.commandline
     variable_manager = generator.variable_manager
     options = []
     final_conditions = []
-- 
2.43.0


From 1ef288fe4dc7eab97901935d3f2bf7e26a35b06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 16/63] fix: make Bash patterns match exactly the strings they
 stand for

---
 crazy_complete/bash.py                        |  2 +-
 crazy_complete/bash_option_completion.py      |  8 +++----
 crazy_complete/bash_parser_subcommand_code.py |  2 +-
 crazy_complete/bash_patterns.py               | 23 ++++++++++++++-----
 crazy_complete/bash_utils.py                  | 11 +++++----
 5 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 90f8f39..2e1154b 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -76,7 +76,7 @@ class BashCompletionGenerator:
         r += '  case "${POSITIONALS[%i]}" in\n' % (positional_num - 1)
         for subcommand in self.subcommands.subcommands:
             cmds = utils.get_all_command_variations(subcommand)
-            pattern = bash_patterns.make_pattern([shell.quote(s) for s in cmds])
+            pattern = bash_patterns.make_pattern(cmds)
             funcname = self.ctxt.helpers.make_completion_funcname(subcommand)
             if utils.is_worth_a_function(subcommand):
                 if self.commandline.inherit_options:
diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 074377d..8f47982 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -221,7 +221,7 @@ class _Info:
                 self.short_no_args += short_opts
 
         if self.short_no_args:
-            self.short_no_args_pattern = '*([%s])' % self.short_no_args
+            self.short_no_args_pattern = '*(%s)' % bash_patterns.make_set(self.short_no_args)
         else:
             self.short_no_args_pattern = ''
 
@@ -256,12 +256,12 @@ def _get_prev_completion(info):
 
     if info.old_required and info.short_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;&\n'
-        r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
+        r += '  -%s%s)\n' % (info.short_no_args_pattern, bash_patterns.make_set(info.short_required_args))
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.short_required:
-        r += '  -%s[%s])\n' % (info.short_no_args_pattern, info.short_required_args)
+        r += '  -%s%s)\n' % (info.short_no_args_pattern, bash_patterns.make_set(info.short_required_args))
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
 
     r += 'esac'
@@ -291,7 +291,7 @@ def _get_cur_completion(info):
         r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;&\n'
 
     if info.short_required or info.short_optional:
-        r += '  -%s[%s%s]*)\n' % (short_no_args_pattern, short_required_args, short_optional_args)
+        r += '  -%s%s*)\n' % (short_no_args_pattern, bash_patterns.make_set(short_required_args + short_optional_args))
         r += '    local i\n'
         r += '    for ((i=2; i <= ${#cur}; ++i)); do\n'
         r += '      local pre="${cur:0:$i}" value="${cur:$i}"\n'
diff --git a/crazy_complete/bash_parser_subcommand_code.py b/crazy_complete/bash_parser_subcommand_code.py
index bd7632b..b3f2543 100644
--- a/crazy_complete/bash_parser_subcommand_code.py
+++ b/crazy_complete/bash_parser_subcommand_code.py
@@ -92,7 +92,7 @@ def _make_switch_case(cmdline):
 
     r  = 'case "$arg" in\n'
     for command, aliases in subcommand_aliases.items():
-        r += '  %s) cmd+=":%s";;\n' % (bash_patterns.make_pattern(aliases), command)
+        r += '  %s) cmd+=%s;;\n' % (bash_patterns.make_pattern(aliases), shell.quote(f':{command}'))
     r += '  *) cmd+=":$arg";;\n'
     r += 'esac'
     return r
diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 2cd3dcf..431bc4f 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -3,11 +3,24 @@
 
 '''Module for creating Bash globs.'''
 
+import re
 from collections import defaultdict
 
 from .algo import numbers_are_contiguous
 
 
+def escape(string):
+    '''Escape all characters that are special in Bash (patterns).'''
+
+    return re.sub(r'[^\w@%+=:,./-]', r'\\\g<0>', string)
+
+
+def make_set(chars):
+    '''Make a bracket expression that matches one of `chars`.'''
+
+    return '[%s]' % escape(chars)
+
+
 class TrieNode:
     '''Trie class.'''
 
@@ -22,7 +35,7 @@ class TrieNode:
 
         node = self
         for char in string:
-            node = node.children[char]
+            node = node.children[escape(char)]
         node.is_terminal = True
 
 
@@ -30,12 +43,10 @@ def _build_pattern(parts):
     if len(parts) == 1:
         return parts[0]
 
-    try:
+    if all(part in tuple('0123456789') for part in parts):
         ints = sorted(map(int, parts))
         if numbers_are_contiguous(ints):
             return f'[{ints[0]}-{ints[-1]}]'
-    except ValueError:
-        pass
 
     return "@(" + "|".join(sorted(parts)) + ")"
 
@@ -68,7 +79,7 @@ def compact_glob_trie(strings):
     '''
     strings = sorted(set(strings))
     if len(strings) == 1:
-        return strings[0]
+        return escape(strings[0])
 
     # Build Trie
     root = TrieNode()
@@ -82,7 +93,7 @@ def compact_glob_trie(strings):
 def make_pattern(strings):
     '''Make a glob pattern that matches `strings`.'''
 
-    candidate0 = '|'.join(strings)
+    candidate0 = '|'.join(map(escape, strings))
     candidate1 = compact_glob_trie(strings)
 
     return candidate0 if len(candidate0) < len(candidate1) else candidate1
diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 9799b24..1525fc7 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -4,6 +4,7 @@
 '''Bash utility functions.'''
 
 from . import shell
+from . import bash_patterns
 
 
 def make_option_variable_name(option, prefix=''):
@@ -57,28 +58,30 @@ class CasePatterns:
     def for_long_without_arg(option_strings):
         '''Return a case pattern for long options without arguments.'''
 
-        return '|'.join(option_strings)
+        return '|'.join(map(bash_patterns.escape, option_strings))
 
     @staticmethod
     def for_long_with_arg(option_strings):
         '''Return a case pattern for long options with arguments.'''
 
-        return '|'.join(f'{o}=*' for o in option_strings)
+        return '|'.join(f'{bash_patterns.escape(o)}=*' for o in option_strings)
 
     @staticmethod
     def for_short(option_strings):
         '''Return a case pattern for short options.'''
 
-        return '|'.join(o[1] for o in option_strings)
+        return '|'.join(bash_patterns.escape(o[1]) for o in option_strings)
 
     @staticmethod
     def for_old_without_arg(option_strings):
         '''Return a case pattern for old options without arguments.'''
 
+        option_strings = [bash_patterns.escape(o) for o in option_strings]
+
         if len(option_strings) <= 2:
             return '|'.join(option_strings)
 
-        return '-@(%s)' % '|'.join(o.lstrip('-') for o in option_strings)
+        return '-@(%s)' % '|'.join(o[1:] for o in option_strings)
 
 
 def make_file_extension_pattern(extensions, fuzzy):
-- 
2.43.0


From bcf2caf93c78d1d919ba382bc51bc96dfe82f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 17/63] fix: give different options different, valid Bash
 variables

---
 crazy_complete/bash.py       |  5 ++++-
 crazy_complete/bash_utils.py | 40 +++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 2e1154b..13e5e02 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -38,7 +38,10 @@ class BashCompletionGenerator:
         self.positionals = commandline.get_positionals()
         self.subcommands = commandline.get_subcommands()
         self.completer = bash_complete.BashCompleter()
-        self.variable_manager = VariableManager('OPT_')
+        self.variable_manager = VariableManager('OPT_', [
+            option.capture
+            for cmdline in commandline.get_root_commandline().get_all_commandlines()
+            for option in cmdline.options])
         self._generate()
 
     def complete_option(self, option):
diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 1525fc7..0a97bc1 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -7,35 +7,41 @@ from . import shell
 from . import bash_patterns
 
 
-def make_option_variable_name(option, prefix=''):
-    '''Make a variable for an option.'''
-    long_options = option.get_long_option_strings()
-    if long_options:
-        return prefix + shell.make_identifier(long_options[0].lstrip('-'))
+def get_naming_option_string(option):
+    '''Return the option string that gives an option its variable name.'''
+    return (option.get_long_option_strings() +
+            option.get_old_option_strings() +
+            option.get_short_option_strings())[0]
 
-    old_options = option.get_old_option_strings()
-    if old_options:
-        return prefix + shell.make_identifier(old_options[0].lstrip('-'))
 
-    short_options = option.get_short_option_strings()
-    if short_options:
-        return prefix + short_options[0][1]
-
-    raise AssertionError("make_option_variable_name: Should not be reached")
+def make_option_variable_name(option, prefix=''):
+    '''Make a variable for an option.'''
+    option_string = get_naming_option_string(option)
+    return prefix + shell.make_identifier(option_string.lstrip('-'))
 
 
 class VariableManager:
     '''Variable manager.'''
 
-    def __init__(self, prefix):
+    def __init__(self, prefix, reserved=()):
         self.prefix = prefix
-        self.variables = set()
+        self.reserved = set(reserved)
+        self.variables = {}
 
     def make_variable(self, option):
         '''Make a variable for an option.'''
 
-        var = make_option_variable_name(option, self.prefix)
-        self.variables.add(var)
+        key = get_naming_option_string(option)
+        name = make_option_variable_name(option, self.prefix)
+        var = name
+        number = 1
+
+        # Different options must not share a variable.
+        while var in self.reserved or self.variables.get(var, key) != key:
+            number += 1
+            var = f'{name}__{number}'
+
+        self.variables[var] = key
         return var
 
     def capture_variable(self, option):
-- 
2.43.0


From c8945abc891bca05424ec79a0579fdbd4d2b2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 18/63] fix: escape only the characters special in Bash
 patterns

---
 crazy_complete/bash_patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/bash_patterns.py b/crazy_complete/bash_patterns.py
index 431bc4f..92eb61e 100644
--- a/crazy_complete/bash_patterns.py
+++ b/crazy_complete/bash_patterns.py
@@ -12,7 +12,7 @@ from .algo import numbers_are_contiguous
 def escape(string):
     '''Escape all characters that are special in Bash (patterns).'''
 
-    return re.sub(r'[^\w@%+=:,./-]', r'\\\g<0>', string)
+    return re.sub(r'[ \t!"#$&\'()*;<>?\[\\\]^`{|}~]', r'\\\g<0>', string)
 
 
 def make_set(chars):
-- 
2.43.0


From f15c66370d40123888c3f497ea7f5089c6df8093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 19/63] fix: give different commands and completers different,
 valid function names

---
 crazy_complete/helpers.py | 40 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 71d3d19..0ef202a 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -68,8 +68,14 @@ class FishFunction(FunctionBase):
         return r
 
 
+def make_function_name(string):
+    '''Replace all characters that aren't allowed in function names.'''
+
+    return re.sub(r'[^\w@%+:,.-]', '_', string)
+
+
 def make_completion_funcname_for_context(ctxt, prefix):
-    '''TODO.'''
+    '''Return a function name for completing the option of `ctxt`.'''
 
     commandlines = ctxt.commandline.get_parents(include_self=True)
     prognames = [p.prog for p in commandlines]
@@ -78,7 +84,8 @@ def make_completion_funcname_for_context(ctxt, prefix):
     funcname = shell.make_identifier('_'.join(prognames))
 
     if isinstance(ctxt.option, cli.Option):
-        return '%s__%s' % (funcname, ctxt.option.option_strings[0])
+        identifier = make_function_name(ctxt.option.option_strings[0])
+        return '%s__%s' % (funcname, identifier)
     if isinstance(ctxt.option, cli.Positional):
         if ctxt.option.metavar:
             identifier = shell.make_identifier(ctxt.option.metavar)
@@ -95,12 +102,16 @@ class GeneralHelpers:
 
     def __init__(self, config, prog, function_class):
         self.config = config
-        self.function_prefix = config.function_prefix.replace('$PROG', prog)
+        self.function_prefix = make_function_name(
+            config.function_prefix.replace('$PROG', prog))
         self.function_class = function_class
 
         # Dynamic functions
         self.dynamic_functions_code_to_funcname = {}
 
+        # Completion functions of commands
+        self.completion_funcnames = {}  # (command path, suffix):funcname
+
         # Builtin functins
         self.functions = {}
         self.used_functions = {}  # funcname:set(defines)
@@ -130,11 +141,21 @@ class GeneralHelpers:
         funcname = make_completion_funcname_for_context(ctxt, self.function_prefix)
         num = 0
         funcname_plus_num = funcname
-        while funcname_plus_num in self.dynamic_functions_code_to_funcname.values():
+        while not self._is_free_dynamic_funcname(funcname_plus_num):
             funcname_plus_num = '%s%d' % (funcname, num)
             num += 1
         return funcname_plus_num
 
+    def _is_free_dynamic_funcname(self, funcname):
+        # Functions that are added later or defined by other means
+        reserved = {'parse_commandline', 'prepare', 'call_func_for_key'}
+        reserved.update(self.functions)
+
+        return (
+            funcname not in self.dynamic_functions_code_to_funcname.values() and
+            funcname not in map(self.get_real_function_name, reserved) and
+            not funcname.endswith('__wrapper'))
+
     def get_all_dynamic_functions(self):
         '''Return a list of code for all dynamically defined functions.'''
 
@@ -247,4 +268,13 @@ class GeneralHelpers:
         prognames[0] = self.function_prefix
         identifier = shell.make_identifier('_'.join(prognames))
 
-        return f'{identifier}{suffix}'
+        path = (tuple(prognames), suffix)
+        if path not in self.completion_funcnames:
+            funcname = f'{identifier}{suffix}'
+            num = 0
+            while funcname in self.completion_funcnames.values():
+                funcname = f'{identifier}{num}{suffix}'
+                num += 1
+            self.completion_funcnames[path] = funcname
+
+        return self.completion_funcnames[path]
-- 
2.43.0


From c536cf5dc91125c9bb0e01973e3d5ec960aa5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 20/63] fix: don't take the last letter of an old-style option
 for a short option (Bash)

---
 crazy_complete/bash_option_completion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 8f47982..1bd9120 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -255,12 +255,15 @@ def _get_prev_completion(info):
         r += '  --*);;\n'
 
     if info.old_required and info.short_required:
-        r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;&\n'
+        r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;&\n'
+        r += '  %s);;\n' % info.old_option_strings
         r += '  -%s%s)\n' % (info.short_no_args_pattern, bash_patterns.make_set(info.short_required_args))
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.old_required:
         r += '  -*)  __complete_option "$prev" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
     elif info.short_required:
+        if info.old_option_strings:
+            r += '  %s);;\n' % info.old_option_strings
         r += '  -%s%s)\n' % (info.short_no_args_pattern, bash_patterns.make_set(info.short_required_args))
         r += '       __complete_option "-${prev: -1}" "$cur" WITHOUT_OPTIONAL && return 0;;\n'
 
@@ -288,7 +291,7 @@ def _get_cur_completion(info):
 
     if info.old_required or info.old_optional:
         r += '  -*=*)\n'
-        r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;&\n'
+        r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;;&\n'
 
     if info.short_required or info.short_optional:
         r += '  -%s%s*)\n' % (short_no_args_pattern, bash_patterns.make_set(short_required_args + short_optional_args))
-- 
2.43.0


From 3336f367575dd4e03721e076da434230d0d7cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 21/63] fix: reject malformed conditions: trailing operators, a
 command after ), has_option without options, numbers

---
 crazy_complete/shell_parser.py | 14 ++++++++++----
 crazy_complete/when.py         | 20 ++++++++++++++++++--
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index f09e2d5..d893dc7 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -49,6 +49,10 @@ class Lexer(StringStream):
     def _parse_token(self):
         c = self.peek()
 
+        while c is not None and c.isspace():
+            self.advance(1)
+            c = self.peek()
+
         if c is None:
             return None
 
@@ -56,10 +60,6 @@ class Lexer(StringStream):
             self.advance(1)
             return c
 
-        if c.isspace():
-            self.advance(1)
-            return self._parse_token()
-
         if c == '&':
             if not self.peek(1) == '&':
                 raise ValueError('Single `&` found')
@@ -146,6 +146,9 @@ def check_syntax(tokens):
             if last not in (None, '(', '&&', '||', '!'):
                 raise ValueError("Unexpected `!`")
 
+        elif last == ')':
+            raise ValueError("Unexpected command after `)`")
+
         last = token
 
     if parentheses > 0:
@@ -154,6 +157,9 @@ def check_syntax(tokens):
     if last is None:
         raise ValueError("No command found")
 
+    if last in ('&&', '||', '!'):
+        raise ValueError(f"Missing command after `{last}`")
+
 
 def parse(string):
     '''Parse a string and turn it into And/Or/Not/Command objects.'''
diff --git a/crazy_complete/when.py b/crazy_complete/when.py
index 71a0977..4c11058 100644
--- a/crazy_complete/when.py
+++ b/crazy_complete/when.py
@@ -3,6 +3,8 @@
 
 '''Functions for parsing the `when` attribute.'''
 
+import re
+
 from . import shell_parser
 from . import messages as m
 from .errors import CrazyError
@@ -12,6 +14,15 @@ from .str_utils import is_valid_option_string, is_valid_extended_regex
 # pylint: disable=too-few-public-methods
 
 
+def parse_number(string):
+    '''Parse a non-negative decimal number.'''
+
+    if not re.fullmatch('[0-9]+', string):
+        raise ValueError(f'Not a number: {string!r}')
+
+    return int(string)
+
+
 class OptionIs:
     '''Class for holding `option_is`.'''
 
@@ -116,6 +127,11 @@ class HasOption:
     def __init__(self, args):
         self.options = args
 
+        for option in self.options:
+            if not is_valid_option_string(option):
+                msg = 'has_option: %s: %s' % (m.invalid_value(), option)
+                raise CrazyError(msg)
+
         if not self.options:
             msg = 'has_option: %s: %s' % (m.missing_arg(), 'options')
             raise CrazyError(msg)
@@ -143,7 +159,7 @@ class PositionalCount:
             raise CrazyError(msg)
 
         try:
-            self.number = int(args[1])
+            self.number = parse_number(args[1])
         except ValueError:
             msg = 'positional_count: number: %s' % (m.invalid_value())
             raise CrazyError(msg)
@@ -163,7 +179,7 @@ class PositionalContains:
             args.pop(0)
 
         try:
-            self.number = int(args.pop(0))
+            self.number = parse_number(args.pop(0))
         except ValueError:
             msg = 'positional_contains: number: %s' % (m.invalid_value())
             raise CrazyError(msg)
-- 
2.43.0


From 23964f61cd1a67c2d9b06585d9bb0a3d50920b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 22/63] fix: accept the operator != in positional_count

---
 crazy_complete/shell_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crazy_complete/shell_parser.py b/crazy_complete/shell_parser.py
index d893dc7..14fdf66 100644
--- a/crazy_complete/shell_parser.py
+++ b/crazy_complete/shell_parser.py
@@ -56,6 +56,10 @@ class Lexer(StringStream):
         if c is None:
             return None
 
+        if c == '!' and self.peek(1) == '=': # comparison operator
+            self.advance(2)
+            return Literal('!=')
+
         if c in ('!', '(', ')'):
             self.advance(1)
             return c
-- 
2.43.0


From 15cf0eb5d98f8d6a178764802a9286c54604b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:53 +0000
Subject: [PATCH 23/63] fix: find options of parent commands in conditions
 (Bash)

---
 crazy_complete/cli.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/cli.py b/crazy_complete/cli.py
index 69ff014..c522d87 100644
--- a/crazy_complete/cli.py
+++ b/crazy_complete/cli.py
@@ -329,13 +329,17 @@ class CommandLine:
         return self.parent.get_root_commandline()
 
     def get_options_by_option_strings(self, option_strings):
-        '''Return all options containing one option_strings.'''
+        '''Return all options containing one option_strings.
+
+        Options of parent command lines are found, too.
+        '''
 
         result = []
+        options = self.get_options(with_parent_options=True)
 
         for option_string in option_strings:
             found = False
-            for option in self.options:
+            for option in options:
                 if option_string in option.option_strings:
                     if option not in result:
                         result.append(option)
-- 
2.43.0


From 2d6d346d0497c5eba28480444577f4a6be84ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 24/63] fix: conditions find an option given by another of its
 option strings (Fish, Zsh)

---
 crazy_complete/generation.py | 19 +++++++++++++++++--
 crazy_complete/zsh.py        |  4 ++--
 crazy_complete/zsh_when.py   |  3 +--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index e470647..0e0ea48 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -4,6 +4,7 @@
 '''Functions that are used in the generation process.'''
 
 from .errors import CrazyError
+from . import algo
 from . import completion_validator
 from . import cli
 from . import config as _config
@@ -96,11 +97,25 @@ def _apply_config(commandline, config):
             positional.when = None
 
 
+def _parse_when(commandline, string):
+    tokens = when.parse_when(string)
+
+    # An option may be given by any of its option strings
+    for obj in tokens:
+        if isinstance(obj, (when.OptionIs, when.OptionMatch, when.HasOption)):
+            given = obj.options
+            for option in commandline.get_options(with_parent_options=True):
+                if any(o in given for o in option.option_strings):
+                    obj.options = algo.uniq(obj.options + option.option_strings)
+
+    return tokens
+
+
 def _add_parsed_when(commandline):
     for option in commandline.options:
         if option.when:
             try:
-                option.when_parsed = when.parse_when(option.when)
+                option.when_parsed = _parse_when(commandline, option.when)
             except CrazyError as e:
                 raise CrazyError('%s: %s: when: %s' % (
                     commandline.get_command_path(),
@@ -112,7 +127,7 @@ def _add_parsed_when(commandline):
     for positional in commandline.positionals:
         if positional.when:
             try:
-                positional.when_parsed = when.parse_when(positional.when)
+                positional.when_parsed = _parse_when(commandline, positional.when)
             except CrazyError as e:
                 raise CrazyError('%s: %s: %s: when: %s' % (
                     commandline.get_command_path(),
diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index b8b0dff..03d5a4d 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -79,7 +79,7 @@ class ZshCompletionFunction:
             long_opt_arg_sep = option.long_opt_arg_sep
         )
 
-        return Arg(option, option.when, option_spec)
+        return Arg(option, option.when_parsed, option_spec)
 
     def _complete_subcommands(self, positional):
         choices = positional.get_choices()
@@ -102,7 +102,7 @@ class ZshCompletionFunction:
             self._complete(positional, *positional.complete).get_action_string()
         )
 
-        return Arg(positional, positional.when, spec)
+        return Arg(positional, positional.when_parsed, spec)
 
     def _generate_completion_code(self):
         self.code = OrderedDict()
diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index 60f7236..c869b08 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -97,8 +97,7 @@ def _generate_positional_contains(ctxt, _query, obj):
         return f'{func} "${{POSITIONALS[{obj.number}]}}" {values}'
 
 
-def generate_when_conditions(ctxt, query, when_):
+def generate_when_conditions(ctxt, query, tokens):
     '''Generate when condition code.'''
 
-    tokens = when.parse_when(when_)
     return _generate(ctxt, query, tokens)
-- 
2.43.0


From 1242d771b85ee7d5a5eef7f4eb00df399bc1580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 25/63] fix: an option without an argument has an empty value
 in conditions (Bash)

---
 crazy_complete/bash_parser.py    |  2 +-
 crazy_complete/bash_parser_v2.py | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index fb054a3..2d8f7f4 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -47,7 +47,7 @@ for ((; argi <= cword; ++argi)); do
   esac
 done'''
 
-_OPT_ISSET = '_OPT_ISSET_'
+_OPT_ISSET = '""'
 
 
 def generate(commandline, variable_manager):
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 4330467..097a6d0 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -47,7 +47,7 @@ for ((argi=1; argi < cword; ++argi)); do
       if __find_option "$cmd" "$arg"; then
         if [[ "$ARGS" == 1 ]]
         then __append_to_array "$VAR" "${words_dequoted[++argi]}"
-        else __append_to_array "$VAR" "_OPT_ISSET_"
+        else __append_to_array "$VAR" ""
         fi
       fi;;
 #else
@@ -65,7 +65,7 @@ for ((argi=1; argi < cword; ++argi)); do
       if __find_option "$cmd" "$arg"; then
         if [[ "$ARGS" == 1 ]]
         then __append_to_array "$VAR" "${words_dequoted[++argi]}"
-        else __append_to_array "$VAR" "_OPT_ISSET_"
+        else __append_to_array "$VAR" ""
         fi
 
         continue
@@ -88,12 +88,12 @@ for ((argi=1; argi < cword; ++argi)); do
           elif [[ "$ARGS" == '?' ]]; then
             if [[ -n "$trailing_chars" ]]
             then __append_to_array "$VAR" "$trailing_chars"
-            else __append_to_array "$VAR" _OPT_ISSET_
+            else __append_to_array "$VAR" ""
             fi
             break;
 #endif
           else
-            __append_to_array "$VAR" "_OPT_ISSET_"
+            __append_to_array "$VAR" ""
           fi
         fi
       done
@@ -117,8 +117,6 @@ for ((; argi <= cword; ++argi)); do
 done
 #endif'''
 
-_OPT_ISSET = '_OPT_ISSET_'
-
 
 def _make_find_option_code(commandline, variable_manager):
     cmdlines = list(reversed(commandline.get_all_commandlines()))
-- 
2.43.0


From e27daf8498ea5039bfde2738b928ccc45c4f8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 26/63] fix: positional_contains is false for a positional that
 is not given

---
 crazy_complete/bash_when.py    | 6 ++++--
 crazy_complete/fish_helpers.py | 1 +
 crazy_complete/zsh_when.py     | 6 ++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/bash_when.py b/crazy_complete/bash_when.py
index 12fc3ae..30958d1 100644
--- a/crazy_complete/bash_when.py
+++ b/crazy_complete/bash_when.py
@@ -99,9 +99,11 @@ class ConditionGenerator:
         values = shell.join_quoted(obj.values)
 
         if obj.ignore_case:
-            return f'{func} "${{POSITIONALS[{index}],,}}" {values.lower()}'
+            cond = f'{func} "${{POSITIONALS[{index}],,}}" {values.lower()}'
         else:
-            return f'{func} "${{POSITIONALS[{index}]}}" {values}'
+            cond = f'{func} "${{POSITIONALS[{index}]}}" {values}'
+
+        return '{ (( ${#POSITIONALS[@]} >= %d )) && %s; }' % (obj.number, cond)
 
     def _gen_variables(self, options, any_options):
         variables = []
diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 4e75249..82f64c9 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -267,6 +267,7 @@ end
 #endif
 set -l positional_num $argv[1]
 set -e argv[1]
+test $positional_num -le (count $__QUERY_CACHE_POSITIONALS) || return 1
 #ifdef nocase
 if $nocase
   contains -- (string lower -- $__QUERY_CACHE_POSITIONALS[$positional_num] $argv)
diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index c869b08..c4ad140 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -92,9 +92,11 @@ def _generate_positional_contains(ctxt, _query, obj):
     values = shell.join_quoted(obj.values)
 
     if obj.ignore_case:
-        return f'{func} "${{(L)POSITIONALS[{obj.number}]}}" {values.lower()}'
+        cond = f'{func} "${{(L)POSITIONALS[{obj.number}]}}" {values.lower()}'
     else:
-        return f'{func} "${{POSITIONALS[{obj.number}]}}" {values}'
+        cond = f'{func} "${{POSITIONALS[{obj.number}]}}" {values}'
+
+    return '{ (( ${#POSITIONALS[@]} >= %d )) && %s; }' % (obj.number, cond)
 
 
 def generate_when_conditions(ctxt, query, tokens):
-- 
2.43.0


From 08d6c2a175aa5412d810e5c08ed999f172775538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 27/63] fix: test the value of each option of a condition in
 all shells

---
 crazy_complete/generation.py | 41 +++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/generation.py b/crazy_complete/generation.py
index 0e0ea48..39c2a3e 100644
--- a/crazy_complete/generation.py
+++ b/crazy_complete/generation.py
@@ -3,6 +3,8 @@
 
 '''Functions that are used in the generation process.'''
 
+from copy import copy
+
 from .errors import CrazyError
 from . import algo
 from . import completion_validator
@@ -98,17 +100,40 @@ def _apply_config(commandline, config):
 
 
 def _parse_when(commandline, string):
-    tokens = when.parse_when(string)
+    result = []
 
-    # An option may be given by any of its option strings
-    for obj in tokens:
+    for obj in when.parse_when(string):
         if isinstance(obj, (when.OptionIs, when.OptionMatch, when.HasOption)):
-            given = obj.options
-            for option in commandline.get_options(with_parent_options=True):
-                if any(o in given for o in option.option_strings):
-                    obj.options = algo.uniq(obj.options + option.option_strings)
+            result.extend(_resolve_options(commandline, obj))
+        else:
+            result.append(obj)
 
-    return tokens
+    return result
+
+
+def _resolve_options(commandline, obj):
+    # An option may be given by any of its option strings
+    options = {}
+    for option_string in obj.options:
+        strings = [option_string]
+        for option in commandline.get_options(with_parent_options=True):
+            if option_string in option.option_strings:
+                strings.extend(option.option_strings)
+        strings = algo.uniq(strings)
+        options.setdefault(tuple(sorted(strings)), strings)
+
+    # Each option has its own value, so test them one by one
+    if len(options) > 1 and not isinstance(obj, when.HasOption) and not obj.any:
+        result = ['(']
+        for strings in options.values():
+            test = copy(obj)
+            test.options = strings
+            result.extend([test, '||'])
+        result[-1] = ')'
+        return result
+
+    obj.options = algo.uniq(algo.flatten(options.values()))
+    return [obj]
 
 
 def _add_parsed_when(commandline):
-- 
2.43.0


From 5f1593f95a6d4691800134f6e2f195b69b1aebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 28/63] fix: don't generate double negations in Zsh

---
 crazy_complete/zsh_when.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crazy_complete/zsh_when.py b/crazy_complete/zsh_when.py
index c4ad140..2643ddd 100644
--- a/crazy_complete/zsh_when.py
+++ b/crazy_complete/zsh_when.py
@@ -28,6 +28,9 @@ def _generate(ctxt, query, tokens):
         elif isinstance(obj, when.PositionalContains):
             r.append(_generate_positional_contains(ctxt, query, obj))
 
+        elif obj == '!' and r and r[-1] == '!':
+            r.pop() # Zsh doesn't accept `! !`
+
         elif obj in ('&&', '||', '!'):
             r.append(obj)
 
-- 
2.43.0


From 5a11ebaf70f3d28e54ad65b6ce9a849bb609fe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:14 +0000
Subject: [PATCH 29/63] fix: recognise options of the top-level command after a
 subcommand (Fish)

---
 crazy_complete/fish_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index 82f64c9..aa21c16 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -66,6 +66,7 @@ set -l last_arg_is_option_argument false
 
 #ifdef subcommands
 function %PREFIX%_match_positionals -S
+  test -n "$argv[1]" || return 0
   set -l patterns (string split -- '>' "$argv[1]")
   set -l i (count $patterns)
 
-- 
2.43.0


From b669e8773c4835d063dc2e86e76b1453fe5434be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:13 +0000
Subject: [PATCH 30/63] fix: don't count options of the parents as positionals
 in subcommands (Zsh)

---
 crazy_complete/zsh.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index 03d5a4d..eb4f110 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -161,6 +161,32 @@ class ZshCompletionFunction:
 
         return r
 
+    def _get_parent_options(self):
+        # Options of the parents may be given before the subcommand. They have
+        # to be known, otherwise they would be counted as positionals.
+        args = []
+        known = set(self.commandline.get_option_strings())
+
+        for cmdline in reversed(self.commandline.get_parents()):
+            for option in cmdline.options:
+                option_strings = [s for s in option.option_strings if s not in known]
+                known.update(option_strings)
+
+                if option_strings:
+                    option_spec = zsh_utils.make_option_spec(
+                        option_strings,
+                        complete = option.complete,
+                        optional_arg = option.optional_arg,
+                        repeatable = True,
+                        hidden = True,
+                        final = option.final,
+                        action = "' '",
+                        long_opt_arg_sep = option.long_opt_arg_sep
+                    )
+                    args.append(Arg(option, None, option_spec))
+
+        return args
+
     def _generate_option_parsing(self):
         args = []
 
@@ -172,6 +198,9 @@ class ZshCompletionFunction:
         for option in options:
             args.append(self._complete_option(option))
 
+        if not self.commandline.inherit_options:
+            args.extend(self._get_parent_options())
+
         for cmdline in self.commandline.get_parents():
             for option in cmdline.get_positionals():
                 args.append(self._complete_positional(option))
-- 
2.43.0


From ef25c02fdcd7b7adc47bbe6c7f7e7a451aa842d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 31/63] fix: reject positionals with the same number and no
 condition

---
 crazy_complete/messages.py         | 6 ++++++
 crazy_complete/scheme_validator.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/crazy_complete/messages.py b/crazy_complete/messages.py
index 8bc3575..741c279 100644
--- a/crazy_complete/messages.py
+++ b/crazy_complete/messages.py
@@ -133,6 +133,12 @@ def missing_definition_of_program(program):
     return f'Missing definition of program `{program}`'
 
 
+def multiple_definition_of_positional(number):
+    if LANG == 'de':
+        return f'Mehrfache Definition des Positionsarguments mit der Nummer {number}'
+    return f'Multiple definition of positional number {number}'
+
+
 def multiple_definition_of_program(program):
     if LANG == 'de':
         return f'Mehrfache Definition des Programms `{program}`'
diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 86aa75a..9f23a78 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -700,6 +700,7 @@ def _check_positionals_repeatable0(definition_tree, definition):
 
     positionals = definition.value['positionals'].value
     repeatable_number = None
+    unconditional_numbers = set()
 
     for positional in sorted(positionals, key=lambda p: p.value['number'].value):
         repeatable = False
@@ -708,6 +709,13 @@ def _check_positionals_repeatable0(definition_tree, definition):
 
         positional_number = positional.value['number'].value
 
+        if not _has_set(positional, 'when'):
+            if positional_number in unconditional_numbers:
+                msg = m.multiple_definition_of_positional(positional_number)
+                raise _error(msg, positional)
+
+            unconditional_numbers.add(positional_number)
+
         if repeatable:
             if repeatable_number is not None and repeatable_number != positional_number:
                 msg = m.too_many_repeatable_positionals()
-- 
2.43.0


From fe0ee3a088775933c514202c444867aa8def5a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 32/63] fix: offer positionals at their position in Zsh (gaps
 and alternatives)

---
 crazy_complete/zsh.py | 55 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index eb4f110..e21a489 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -5,6 +5,8 @@
 
 from collections import namedtuple, OrderedDict
 
+from . import algo
+from . import cli
 from . import config as config_
 from . import generation
 from . import shell
@@ -187,6 +189,50 @@ class ZshCompletionFunction:
 
         return args
 
+    def _get_skipped_positionals(self):
+        # The specification of a repeatable positional has no number, so the
+        # undefined positionals before it have to be skipped.
+        args = []
+        positionals = self.commandline.get_positionals()
+        numbers = set(p.get_positional_num() for p in positionals)
+
+        for positional in positionals:
+            if not positional.repeatable:
+                continue
+
+            first = positional.get_positional_index() - positional.number + 2
+            for number in range(first, positional.get_positional_num()):
+                if number not in numbers:
+                    numbers.add(number)
+                    spec = zsh_utils.make_positional_spec(number, False, ' ', "' '")
+                    args.append(Arg(None, None, spec))
+
+        return args
+
+    @staticmethod
+    def _get_positional_alternatives(args):
+        # Return lists of positionals that have the same position. Zsh
+        # doesn't allow more than one specification for a position.
+        positionals = [arg for arg in args if isinstance(arg.option, cli.Positional)]
+        groups = algo.group_by(positionals, lambda arg: (
+            '*' if arg.option.repeatable else arg.option.get_positional_num()))
+        return [group for group in groups.values() if len(group) > 1]
+
+    def _generate_alternatives(self, args):
+        # Use the first positional whose condition is true
+        alternatives = []
+
+        for arg in args:
+            code = 'args+=(%s)' % arg.option_spec
+
+            if arg.when is not None:
+                when_cmd = zsh_when.generate_when_conditions(self.ctxt, self.query, arg.when)
+                code = '%s && %s' % (when_cmd, code)
+
+            alternatives.append('{ %s; }' % code)
+
+        return ' ||\\\n'.join(alternatives)
+
     def _generate_option_parsing(self):
         args = []
 
@@ -211,6 +257,8 @@ class ZshCompletionFunction:
         for option in self.commandline.get_positionals():
             args.append(self._complete_positional(option))
 
+        args.extend(self._get_skipped_positionals())
+
         if self.subcommands:
             args.append(self._complete_subcommands(self.subcommands))
 
@@ -222,7 +270,11 @@ class ZshCompletionFunction:
 
         args_with_when = []
         args_without_when = []
+        alternatives = self._get_positional_alternatives(args)
         for arg in args:
+            if any(arg in group for group in alternatives):
+                continue
+
             if arg.when is None:
                 args_without_when.append(arg)
             else:
@@ -243,6 +295,9 @@ class ZshCompletionFunction:
             r += '%s &&\\\n' % when_cmd
             r += '  args+=(%s)\n' % arg.option_spec
 
+        for group in alternatives:
+            r += '%s\n' % self._generate_alternatives(group)
+
         if self.ctxt.config.option_stacking:
             r += '_arguments -S -s -w "${args[@]}"'
         else:
-- 
2.43.0


From c975bcddf0ef0e2eb3776d68a99d0acc4f8573bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 33/63] fix: complete options in the subcommand and above
 before all its positionals are given (Fish)

---
 crazy_complete/fish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 76e623d..02b4e90 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -220,7 +220,7 @@ class FishCompletionGenerator:
         # ensures that we're in the right (sub)command.
         if not self.commandline.inherit_options and self.subcommands:
             positional = self.subcommands.get_positional_num()
-            definition.conditions.add(PositionalNum('==', positional - 1))
+            definition.conditions.add(PositionalNum('<=', positional - 1))
 
         definition.conditions.extend(_get_positional_contains(option))
         definition.conditions.add_when(option.when_parsed)
-- 
2.43.0


From e46a68a48e7bc518b866db0fc1fe50c750fd0b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 34/63] fix: complete optional arguments if no option requires
 an argument (Bash)

---
 crazy_complete/bash_option_completion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 1bd9120..290269c 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -129,7 +129,9 @@ class MasterCompletionFunctionNoWhen(MasterCompletionFunctionBase):
 
         if optional_arg:
             self.optionals = True
-            r =  '(( ! ret )) && return 0\n'
+            r = ''
+            if required_arg:
+                r += '(( ! ret )) && return 0\n'
             r += '[[ "$mode" == WITH_OPTIONAL ]] || return 1\n'
             r += 'ret=0'
             self.code.append(r)
-- 
2.43.0


From 138cb9d57f222deb295d7278de0b800adb6efae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 35/63] fix: let subcommands override options and complete
 arguments of inherited options (Bash, Fish)

---
 crazy_complete/bash.py                        |  5 ++-
 crazy_complete/bash_option_completion.py      | 21 +++++++++-
 .../bash_option_strings_completion.py         | 15 ++++++--
 crazy_complete/bash_parser.py                 |  6 ++-
 crazy_complete/bash_parser_subcommand_code.py |  8 ++++
 crazy_complete/bash_parser_v2.py              |  6 ++-
 crazy_complete/bash_positionals_completion.py |  5 +++
 crazy_complete/fish.py                        | 26 ++++++++++---
 crazy_complete/fish_conditions.py             | 13 +++++++
 crazy_complete/utils.py                       | 38 +++++++++++++++++++
 10 files changed, 129 insertions(+), 14 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 13e5e02..0458b6c 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -60,7 +60,7 @@ class BashCompletionGenerator:
                 if option.capture is not None:
                     local_vars.append(option.capture)
 
-        r = 'local END_OF_OPTIONS POSITIONALS\n'
+        r = 'local END_OF_OPTIONS OPTION_PENDING POSITIONALS cmd\n'
 
         if local_vars:
             local_vars = algo.uniq(local_vars)
@@ -154,7 +154,8 @@ class BashCompletionGenerator:
             func = helpers.ShellFunction('parse_commandline', c)
             self.ctxt.helpers.add_function(func)
 
-            # This sets up END_OF_OPTIONS, POSITIONALS and the OPT_* variables.
+            # This sets up END_OF_OPTIONS, OPTION_PENDING, POSITIONALS, cmd
+            # and the OPT_* variables.
             code['command_line_parsing'] = self._generate_commandline_parsing()
 
         r  = '%s() {\n' % self.ctxt.helpers.make_completion_funcname(self.commandline)
diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 290269c..7898356 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -10,6 +10,7 @@ from . import bash_when
 from . import bash_utils
 from . import bash_patterns
 from .str_utils import indent
+from .bash_parser_subcommand_code import make_overriding_command_pattern
 
 
 class MasterCompletionFunctionBase:
@@ -25,6 +26,20 @@ class MasterCompletionFunctionBase:
         '''Get the function code.'''
         raise NotImplementedError
 
+    def get_overridden_check(self):
+        '''Return code that refuses options that are overridden by a subcommand.'''
+        r = ''
+
+        for option in self.options:
+            commands = make_overriding_command_pattern(option)
+            if commands:
+                opts = bash_patterns.make_pattern(self.get_all_option_strings(option))
+                r += 'case "$cmd" in %s)\n' % commands
+                r += '  case "$opt" in %s) return 1;; esac;;\n' % opts
+                r += 'esac\n\n'
+
+        return r
+
     def get_all_option_strings(self, option):
         '''Return all possible option strings for option.'''
         opts = option.get_short_option_strings()
@@ -106,6 +121,7 @@ class MasterCompletionFunction(MasterCompletionFunctionBase):
                 r += '  local opt="$1" cur="$2" mode="$3"\n\n'
             else:
                 r += '  local opt="$1" cur="$2"\n\n'
+            r += indent(self.get_overridden_check(), 2)
             r += '%s\n\n' % indent('\n\n'.join(self.code), 2)
             r += '  return 1\n'
             r += '}'
@@ -167,6 +183,7 @@ class MasterCompletionFunctionNoWhen(MasterCompletionFunctionBase):
                 r += '  local opt="$1" cur="$2" mode="$3" ret=0\n\n'
             else:
                 r += '  local opt="$1" cur="$2" ret=0\n\n'
+            r += indent(self.get_overridden_check(), 2)
             r += '%s\n\n' % indent('\n\n'.join(self.code), 2)
             r += '  return $ret\n'
             r += '}'
@@ -324,7 +341,9 @@ def _get_dispatcher(info):
     optional = info.short_optional or info.long_optional or info.old_optional
 
     if required:
-        r.append(_get_prev_completion(info))
+        # $prev isn't an option that awaits its argument if it's itself an
+        # argument or comes after `--`.
+        r.append('if (( OPTION_PENDING )); then\n%s\nfi' % indent(_get_prev_completion(info), 2))
 
     if required or optional:
         r.append(_get_cur_completion(info))
diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index ff83a27..95c63d4 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -8,8 +8,10 @@ from collections import namedtuple
 from . import cli
 from . import algo
 from . import shell
+from . import utils
 from . import bash_when
 from .str_utils import indent
+from .bash_parser_subcommand_code import make_overriding_command_pattern
 
 
 _Option = namedtuple('_Option', ('option', 'conditions', 'when'))
@@ -80,9 +82,11 @@ def generate(generator):
     commandline = generator.commandline
 
     if len(generator.options) == 0:
-        if commandline.inherit_options and generator.subcommands:
-            # Keep the options that were offered by a subcommand
-            r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -?* ]]; then\n'
+        if ((commandline.inherit_options and generator.subcommands) or
+                utils.get_inherited_options(commandline)):
+            # Keep the options that were offered by a subcommand and don't
+            # prevent the parent from offering its options.
+            r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -* ]]; then\n'
             r += '  return 1\n'
             r += 'fi'
             return r
@@ -119,6 +123,11 @@ def generate(generator):
         if option.when is not None:
             when = bash_when.generate_when_conditions(generator.ctxt, commandline, variable_manager, option.when)
 
+        overriding_commands = make_overriding_command_pattern(option)
+        if overriding_commands:
+            not_overridden = '[[ "$cmd" != @(%s) ]]' % overriding_commands
+            when = ' && '.join(filter(None, [not_overridden, when]))
+
         options.append(_Option(option, conditions, when))
 
     r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -* ]]; then\n'
diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index 2d8f7f4..e4e050a 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -15,8 +15,10 @@ from .bash_parser_subcommand_code import (
 _PARSER_CODE = '''\
 POSITIONALS=()
 END_OF_OPTIONS=0
+OPTION_PENDING=0
+cmd=root
 
-local cmd="root" argi arg i char trailing_chars
+local argi arg i char trailing_chars
 
 for ((argi=1; argi < cword; ++argi)); do
   arg="${words_dequoted[argi]}"
@@ -40,6 +42,8 @@ for ((argi=1; argi < cword; ++argi)); do
   esac
 done
 
+(( argi > cword )) && OPTION_PENDING=1
+
 for ((; argi <= cword; ++argi)); do
   case "${words_dequoted[argi]}" in
     -?*);;
diff --git a/crazy_complete/bash_parser_subcommand_code.py b/crazy_complete/bash_parser_subcommand_code.py
index b3f2543..cc784d1 100644
--- a/crazy_complete/bash_parser_subcommand_code.py
+++ b/crazy_complete/bash_parser_subcommand_code.py
@@ -31,6 +31,14 @@ def make_command_pattern(commandline):
     return pattern
 
 
+def make_overriding_command_pattern(option):
+    '''Return a pattern that matches the paths of the subcommands that override
+    `option`, or None if there are none.'''
+
+    commandlines = utils.get_overriding_commandlines(option)
+    return '|'.join(make_command_pattern(c) for c in commandlines) or None
+
+
 def make_subcommand_switch_code(commandline):
     '''
     Generate Bash code that tracks and updates the current subcommand path.
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 097a6d0..1c57340 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -18,8 +18,10 @@ _PARSER_CODE = '''\
 POSITIONALS=()
 #endif
 END_OF_OPTIONS=0
+OPTION_PENDING=0
+cmd=root
 
-local cmd="root" argi arg i char trailing_chars VAR ARGS
+local argi arg i char trailing_chars VAR ARGS
 
 %FIND_OPTION_CODE%
 
@@ -107,6 +109,8 @@ for ((argi=1; argi < cword; ++argi)); do
 #endif
   esac
 done
+
+(( argi > cword )) && OPTION_PENDING=1
 #ifdef positionals
 
 for ((; argi <= cword; ++argi)); do
diff --git a/crazy_complete/bash_positionals_completion.py b/crazy_complete/bash_positionals_completion.py
index 2808689..264716b 100644
--- a/crazy_complete/bash_positionals_completion.py
+++ b/crazy_complete/bash_positionals_completion.py
@@ -4,6 +4,7 @@
 '''Module for positionals completion in Bash.'''
 
 from . import algo
+from . import utils
 from . import bash_when
 from .str_utils import indent
 
@@ -80,6 +81,10 @@ def generate(generator):
 
     code = []
 
+    if any(o.has_required_arg() for o in utils.get_inherited_options(generator.commandline)):
+        # The argument of an inherited option is completed by the parent
+        code += ['(( OPTION_PENDING )) && return 1']
+
     has_when = any(p.when for p in generator.positionals)
 
     if has_when:
diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 02b4e90..20d1053 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -13,7 +13,7 @@ from . import generation
 from .output import Output
 from .fish_utils import FishCompleteCommand, VariableManager
 from .fish_conditions import (
-    Conditions, Not,
+    Conditions, And, Not,
     HasHiddenOption, HasOption, PositionalNum, PositionalContains
 )
 
@@ -89,8 +89,8 @@ class FishCompletionDefinition:
         return cmd
 
 
-def _get_positional_contains(option):
-    commandlines = option.parent.get_parents(include_self=True)
+def _get_positional_contains(commandline):
+    commandlines = commandline.get_parents(include_self=True)
     del commandlines[0]
 
     conditions = []
@@ -103,6 +103,19 @@ def _get_positional_contains(option):
     return conditions
 
 
+def _get_not_overridden(option):
+    '''Return conditions that are false if a subcommand overrides `option`.'''
+
+    own_path = _get_positional_contains(option.parent)
+    conditions = []
+
+    for commandline in utils.get_overriding_commandlines(option):
+        path = _get_positional_contains(commandline)[len(own_path):]
+        conditions.append(Not(And(path)))
+
+    return conditions
+
+
 class FishCompletionGenerator:
     '''Class for generating completions.'''
 
@@ -222,7 +235,8 @@ class FishCompletionGenerator:
             positional = self.subcommands.get_positional_num()
             definition.conditions.add(PositionalNum('<=', positional - 1))
 
-        definition.conditions.extend(_get_positional_contains(option))
+        definition.conditions.extend(_get_positional_contains(option.parent))
+        definition.conditions.extend(_get_not_overridden(option))
         definition.conditions.add_when(option.when_parsed)
 
         return definition
@@ -245,7 +259,7 @@ class FishCompletionGenerator:
         )
 
         definition.conditions.add_when(positional.when_parsed)
-        definition.conditions.extend(_get_positional_contains(positional))
+        definition.conditions.extend(_get_positional_contains(positional.parent))
 
         positional_num = positional.get_positional_num()
         operator = '>=' if positional.repeatable else '=='
@@ -267,7 +281,7 @@ class FishCompletionGenerator:
 
         positional_num = positional.get_positional_num()
         definition.conditions.add(PositionalNum('==', positional_num - 1))
-        definition.conditions.extend(_get_positional_contains(positional))
+        definition.conditions.extend(_get_positional_contains(positional.parent))
         return definition
 
     def get_command_comment(self):
diff --git a/crazy_complete/fish_conditions.py b/crazy_complete/fish_conditions.py
index 657b73f..2f68fd6 100644
--- a/crazy_complete/fish_conditions.py
+++ b/crazy_complete/fish_conditions.py
@@ -56,6 +56,19 @@ class Not(Condition):
         return 'not %s' % self.conditional.get_code(ctxt)
 
 
+class And(Condition):
+    '''Logical and.'''
+
+    def __init__(self, conditions):
+        self.conditions = conditions
+
+    def get_code(self, ctxt):
+        code = [condition.get_code(ctxt) for condition in self.conditions]
+        if len(code) == 1:
+            return code[0]
+        return 'begin; %s; end' % '; and '.join(code)
+
+
 class HasOption(Condition):
     '''Checks if an option is present on command line.'''
 
diff --git a/crazy_complete/utils.py b/crazy_complete/utils.py
index 1292719..ada3b33 100644
--- a/crazy_complete/utils.py
+++ b/crazy_complete/utils.py
@@ -276,6 +276,44 @@ def get_query_option_strings(commandline, with_parent_options=True):
     return ' '.join(r)
 
 
+def get_inherited_options(commandline):
+    '''Return the options of the parents that are visible to `commandline`.'''
+
+    r = []
+    known = set(o.get_option_strings_key() for o in commandline.options)
+
+    for parent in reversed(commandline.get_parents()):
+        if parent.inherit_options:
+            r.extend(o for o in parent.options
+                     if o.get_option_strings_key() not in known)
+
+        known.update(o.get_option_strings_key() for o in parent.options)
+
+    return r
+
+
+def get_overriding_commandlines(option):
+    '''Return the uppermost subcommands that override an inherited option.'''
+
+    r = []
+
+    def visit(commandline):
+        if not commandline.get_subcommands():
+            return
+
+        for subcommand in commandline.get_subcommands().subcommands:
+            keys = [o.get_option_strings_key() for o in subcommand.options]
+            if option.get_option_strings_key() in keys:
+                r.append(subcommand)
+            else:
+                visit(subcommand)
+
+    if option.parent.inherit_options:
+        visit(option.parent)
+
+    return r
+
+
 def is_worth_a_function(commandline):
     '''Check if a commandline "is worth a function".
 
-- 
2.43.0


From c6bcf844283e101192fc9accbcd7d757c49fbde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 36/63] fix: let final options of subcommands suppress
 inherited options, no empty if (Bash, Fish)

---
 .../bash_option_strings_completion.py         | 27 +++++++++++++------
 crazy_complete/fish.py                        | 19 +++++++++++++
 crazy_complete/utils.py                       | 18 +++++++++++++
 3 files changed, 56 insertions(+), 8 deletions(-)

diff --git a/crazy_complete/bash_option_strings_completion.py b/crazy_complete/bash_option_strings_completion.py
index 95c63d4..5df2152 100644
--- a/crazy_complete/bash_option_strings_completion.py
+++ b/crazy_complete/bash_option_strings_completion.py
@@ -64,29 +64,42 @@ def _generate_option_strings_completion(options):
     return '\n'.join(r)
 
 
-def _generate_final_check_with_options(final_conditions, options):
+def _generate_final_check_with_options(final_conditions, options, inherits=False):
     option_strings_completion = _generate_option_strings_completion(options)
 
     if not final_conditions:
         return option_strings_completion
 
     r  = 'if (( %s )); then\n' % ' && '.join(final_conditions)
-    r += '%s\n' % indent(option_strings_completion, 2)
+    r += '%s\n' % indent(option_strings_completion or ':', 2)
+    if inherits:
+        # Prevent the parent from offering its options.
+        r += 'else\n'
+        r += '  return 0\n'
     r += 'fi'
     return r
 
 
+def _get_final_conditions(generator):
+    return ["! ${#%s[@]}" % generator.variable_manager.capture_variable(option)
+            for option in generator.commandline.get_final_options()]
+
+
 def generate(generator):
     '''Generate option strings completion code.'''
 
     commandline = generator.commandline
+    inherited_options = utils.get_inherited_options(commandline)
 
     if len(generator.options) == 0:
         if ((commandline.inherit_options and generator.subcommands) or
-                utils.get_inherited_options(commandline)):
+                inherited_options):
             # Keep the options that were offered by a subcommand and don't
             # prevent the parent from offering its options.
+            final_conditions = _get_final_conditions(generator)
             r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -* ]]; then\n'
+            if final_conditions and inherited_options:
+                r += '  (( %s )) || return 0\n' % ' && '.join(final_conditions)
             r += '  return 1\n'
             r += 'fi'
             return r
@@ -94,10 +107,7 @@ def generate(generator):
 
     variable_manager = generator.variable_manager
     options = []
-    final_conditions = []
-
-    for final_option in commandline.get_final_options():
-        final_conditions += ["! ${#%s[@]}" % variable_manager.capture_variable(final_option)]
+    final_conditions = _get_final_conditions(generator)
 
     for option in commandline.options:
         if option.hidden:
@@ -132,7 +142,8 @@ def generate(generator):
 
     r  = 'if (( ! END_OF_OPTIONS )) && [[ "$cur" = -* ]]; then\n'
     r += '  local -a opts\n'
-    r += '%s\n' % indent(_generate_final_check_with_options(final_conditions, options), 2)
+    r += '%s\n' % indent(_generate_final_check_with_options(
+        final_conditions, options, bool(inherited_options)), 2)
     r += '  COMPREPLY+=($(compgen -W "${opts[*]}" -- "$cur"))\n'
     r += '  [[ ${COMPREPLY-} == *= ]] && compopt -o nospace\n'
     r += '  return 1\n'
diff --git a/crazy_complete/fish.py b/crazy_complete/fish.py
index 20d1053..adde38d 100644
--- a/crazy_complete/fish.py
+++ b/crazy_complete/fish.py
@@ -116,6 +116,24 @@ def _get_not_overridden(option):
     return conditions
 
 
+def _get_not_final(option):
+    '''Return conditions that are false if a final option of a subcommand is given.'''
+
+    if not option.parent.inherit_options:
+        return []
+
+    own_path = _get_positional_contains(option.parent)
+    conditions = []
+
+    for commandline in utils.get_subcommands_with_final_options(option.parent):
+        path = _get_positional_contains(commandline)[len(own_path):]
+        final_options = [o for o in commandline.options if o.final]
+        option_strings = [s for o in final_options for s in o.option_strings]
+        conditions.append(Not(And([*path, HasOption(option_strings)])))
+
+    return conditions
+
+
 class FishCompletionGenerator:
     '''Class for generating completions.'''
 
@@ -237,6 +255,7 @@ class FishCompletionGenerator:
 
         definition.conditions.extend(_get_positional_contains(option.parent))
         definition.conditions.extend(_get_not_overridden(option))
+        definition.conditions.extend(_get_not_final(option))
         definition.conditions.add_when(option.when_parsed)
 
         return definition
diff --git a/crazy_complete/utils.py b/crazy_complete/utils.py
index ada3b33..5f3f07f 100644
--- a/crazy_complete/utils.py
+++ b/crazy_complete/utils.py
@@ -292,6 +292,24 @@ def get_inherited_options(commandline):
     return r
 
 
+def get_subcommands_with_final_options(commandline):
+    '''Return the subcommands of all levels that have final options of their own.'''
+
+    r = []
+
+    def visit(commandline):
+        if not commandline.get_subcommands():
+            return
+
+        for subcommand in commandline.get_subcommands().subcommands:
+            if any(option.final for option in subcommand.options):
+                r.append(subcommand)
+            visit(subcommand)
+
+    visit(commandline)
+    return r
+
+
 def get_overriding_commandlines(option):
     '''Return the uppermost subcommands that override an inherited option.'''
 
-- 
2.43.0


From 4464f1c60ac4e80c6995cc139d3f32e2aabd0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 37/63] fix: honour long_opt_arg_sep and complete inherited
 options in clusters (Bash)

---
 crazy_complete/bash_option_completion.py | 15 +++++++++++++++
 crazy_complete/bash_parser.py            |  5 ++++-
 crazy_complete/bash_parser_v2.py         | 15 +++++++++++----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index 7898356..f73a151 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -221,10 +221,22 @@ class _Info:
         all_options = self.commandline.get_options(
             with_parent_options=self.commandline.inherit_options)
 
+        if self.commandline.inherit_options:
+            # The options of subcommands may precede our options in a cluster
+            for cmdline in self.commandline.get_all_commandlines():
+                if cmdline is not self.commandline:
+                    all_options.extend(cmdline.options)
+
         old_option_strings = algo.flatten([o.get_old_option_strings() for o in all_options])
         old_option_strings = abbreviations.get_many_abbreviations(old_option_strings)
         self.old_option_strings = bash_utils.CasePatterns.for_old_without_arg(old_option_strings)
 
+        # Long and old-style options whose argument can't be given using `=`
+        self.space_only = algo.flatten([
+            o.get_long_option_strings() + o.get_old_option_strings() for o in options
+            if o.has_required_arg() and o.long_opt_arg_sep == 'space'])
+        self.space_only = abbreviations.get_many_abbreviations(self.space_only)
+
         self.short_no_args = ''
         self.short_required_args = ''
         self.short_optional_args = ''
@@ -297,6 +309,9 @@ def _get_cur_completion(info):
 
     r = 'case "$cur" in\n'
 
+    if info.space_only:
+        r += '  %s);;\n' % bash_utils.CasePatterns.for_long_with_arg(info.space_only)
+
     if info.long_required or info.long_optional:
         r += '  --*=*)\n'
         r += '    __complete_option "${cur%%=*}" "${cur#*=}" WITH_OPTIONAL && return 0;;\n'
diff --git a/crazy_complete/bash_parser.py b/crazy_complete/bash_parser.py
index e4e050a..5805e5e 100644
--- a/crazy_complete/bash_parser.py
+++ b/crazy_complete/bash_parser.py
@@ -119,7 +119,10 @@ def _make_long_option_case(long_options, option, variable):
         r += '  continue;;'
     elif option.has_required_arg():
         r += '%s)\n'         % CasePatterns.for_long_without_arg(long_options)
-        r += '  %s+=("${words_dequoted[++argi]}")\n' % variable
+        if option.long_opt_arg_sep == 'equals':
+            r += '  %s+=(%s)\n' % (variable, _OPT_ISSET)
+        else:
+            r += '  %s+=("${words_dequoted[++argi]}")\n' % variable
         r += '  continue;;\n'
         r += '%s)\n'         % CasePatterns.for_long_with_arg(long_options)
         r += '  %s+=("${arg#*=}")\n'        % variable
diff --git a/crazy_complete/bash_parser_v2.py b/crazy_complete/bash_parser_v2.py
index 1c57340..fe3a950 100644
--- a/crazy_complete/bash_parser_v2.py
+++ b/crazy_complete/bash_parser_v2.py
@@ -208,12 +208,12 @@ def _generate_option_cases(commandline, variable_manager):
     option_cases = []
 
     for option in options:
-        option_strings = option.get_short_option_strings()
+        short_options = option.get_short_option_strings()
 
-        option_strings += abbreviations.get_many_abbreviations(
+        long_options = abbreviations.get_many_abbreviations(
                 option.get_long_option_strings())
 
-        option_strings += abbreviations.get_many_abbreviations(
+        long_options += abbreviations.get_many_abbreviations(
                 option.get_old_option_strings())
 
         value_variable = variable_manager.capture_variable(option)
@@ -225,6 +225,13 @@ def _generate_option_cases(commandline, variable_manager):
         else:
             args = '0'
 
-        option_cases.append(OptionCase(option_strings, value_variable, args))
+        if args == '1' and option.long_opt_arg_sep == 'equals':
+            # The argument of a long option is never in the next word
+            if short_options:
+                option_cases.append(OptionCase(short_options, value_variable, args))
+            if long_options:
+                option_cases.append(OptionCase(long_options, value_variable, '0'))
+        else:
+            option_cases.append(OptionCase(short_options + long_options, value_variable, args))
 
     return option_cases
-- 
2.43.0


From 544ecb8fa62dc01a919d3787aadc626e610f67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:11 +0000
Subject: [PATCH 38/63] fix: translate every part of file patterns and
 extensions with its meaning (Bash, Zsh, Fish)

---
 crazy_complete/bash_complete.py |   4 +-
 crazy_complete/bash_utils.py    |   5 +-
 crazy_complete/fish_complete.py |   8 +-
 crazy_complete/pattern.py       | 271 +++++++++++++++++++++++---------
 crazy_complete/zsh_utils.py     |   3 +
 5 files changed, 205 insertions(+), 86 deletions(-)

diff --git a/crazy_complete/bash_complete.py b/crazy_complete/bash_complete.py
index 678e5fd..42ae803 100644
--- a/crazy_complete/bash_complete.py
+++ b/crazy_complete/bash_complete.py
@@ -9,6 +9,7 @@ from . import bash_versions
 from .str_utils import indent
 from .type_utils import is_dict_type
 from .bash_utils import make_file_extension_pattern
+from .pattern import bash_glob_without_quotes
 
 
 class BashCompletionBase:
@@ -341,7 +342,8 @@ class BashCompleter(shell.ShellCompleter):
 
         if ignore_globs:
             func = ctxt.helpers.use_function('file_filter')
-            r += '\n%s %s' % (func, shell.join_quoted(ignore_globs))
+            patterns = map(bash_glob_without_quotes, ignore_globs)
+            r += '\n%s %s' % (func, shell.join_quoted(patterns))
 
         return BashCompletionCode(ctxt, r)
 
diff --git a/crazy_complete/bash_utils.py b/crazy_complete/bash_utils.py
index 0a97bc1..9d73c82 100644
--- a/crazy_complete/bash_utils.py
+++ b/crazy_complete/bash_utils.py
@@ -5,6 +5,7 @@
 
 from . import shell
 from . import bash_patterns
+from .pattern import Literal
 
 
 def get_naming_option_string(option):
@@ -105,10 +106,10 @@ def make_file_extension_pattern(extensions, fuzzy):
     for extension in extensions:
         pattern = ''
         for c in extension:
-            if c.isalpha():
+            if c.isalpha() and len(c.lower() + c.upper()) == 2:
                 pattern += '[%s%s]' % (c.lower(), c.upper())
             else:
-                pattern += c
+                pattern += Literal(c).to_bash_glob()
 
         patterns.append(pattern)
 
diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index c396526..a6b8d94 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -5,7 +5,7 @@
 
 from . import shell
 from . import utils
-from .pattern import bash_glob_to_regex
+from .pattern import Literal, bash_glob_to_regex
 from .type_utils import is_dict_type
 from .str_utils import indent, join_with_wrap
 
@@ -153,12 +153,10 @@ def _get_extension_regex(extensions, fuzzy):
     for extension in extensions:
         pattern = ''
         for c in extension:
-            if c.isalpha():
+            if c.isalpha() and len(c.lower() + c.upper()) == 2:
                 pattern += '[%s%s]' % (c.lower(), c.upper())
-            elif c in ('.', '+'):
-                pattern += f'\\{c}'
             else:
-                pattern += c
+                pattern += Literal(c).to_regex()
 
         if fuzzy:
             pattern += '.*'
diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index e2699c3..5787fcd 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -18,11 +18,28 @@ class PatternBase:
         '''Make a Zsh glob.'''
         raise NotImplementedError
 
+    def to_bash_glob(self):
+        '''Make a Bash glob that doesn't contain quotes.'''
+        raise NotImplementedError
+
+
+def _zsh_escape(string):
+    # The patterns of `_files -F` are split at blanks, without respect to quotes
+    r = ''
+    for c in string:
+        if c in ' \t':
+            r += '[[:blank:]]'
+        elif c.isalnum() or c in '_./+-:,%@' or ord(c) > 127:
+            r += c
+        else:
+            r += f'\\{c}'
+    return r
+
 
 class Literal(PatternBase):
     '''Holds a literal string.'''
 
-    REGEX_ESCAPE_CHARS = '.?*+|{}[]()'
+    REGEX_ESCAPE_CHARS = r'\^$.?*+|{}[]()'
 
     def __init__(self, string):
         self.string = string
@@ -42,15 +59,13 @@ class Literal(PatternBase):
         return string
 
     def to_zsh_glob(self):
-        string = ''
+        return _zsh_escape(self.string)
 
-        for c in self.string:
-            if c in ('[', ']', '?', '*', '"', ' ', '\\'):
-                string += f"'{c}'"
-            elif c == "'":
-                string += f'"{c}"'
-            else:
-                string += c
+    def to_bash_glob(self):
+        string = self.string
+
+        for c in r'\*?[]()|&':
+            string = string.replace(c, f'\\{c}')
 
         return string
 
@@ -59,50 +74,92 @@ class Star(PatternBase):
     '''Represents a star glob (*).'''
 
     def to_regex(self):
-        return '.*'
+        return '[^/]*'
 
     def to_zsh_glob(self):
         return '*'
 
+    def to_bash_glob(self):
+        return '*'
+
 
 class Question(PatternBase):
     '''Represents a question glob (?).'''
 
     def to_regex(self):
-        return '.'
+        return '[^/]'
 
     def to_zsh_glob(self):
         return '?'
 
+    def to_bash_glob(self):
+        return '?'
+
 
 class CharClass(PatternBase):
-    '''Represents a character class.'''
+    '''Represents a character class.
 
-    REGEX_ESCAPE_CHARS = r'^\.[]'
+    The items are either a single character, a tuple with the first and the
+    last character of a range or the name of a POSIX character class.
+    '''
 
-    def __init__(self, chars, negated):
-        self.chars = chars
+    def __init__(self, items, negated):
+        self.items = items
         self.negated = negated
 
-    def to_regex(self):
-        chars = self.chars
+    def _join(self, escape):
+        r = ''
 
-        for c in CharClass.REGEX_ESCAPE_CHARS:
-            chars = chars.replace(c, f'\\{c}')
+        for item in self.items:
+            if isinstance(item, tuple):
+                r += f'{escape(item[0])}-{escape(item[1])}'
+            elif len(item) > 1:
+                r += f'[:{item}:]'
+            else:
+                r += escape(item)
+
+        return r
+
+    def to_regex(self):
+        chars = self._join(lambda c: f'\\{c}' if c in r'^\.[]-' else c)
 
         if self.negated:
-            return f'[^{chars}]'
+            return f'[^/{chars}]'
 
         return f'[{chars}]'
 
     def to_zsh_glob(self):
+        def escape(c):
+            return '[:blank:]' if c in ' \t' else '\\-' if c == '-' else _zsh_escape(c)
+
         chars = ''
 
-        for c in self.chars:
-            if c in ('[', ']', '!'):
-                chars += f"'{c}'"
-            else:
-                chars += c
+        for item in self.items:
+            if not isinstance(item, tuple):
+                chars += f'[:{item}:]' if len(item) > 1 else escape(item)
+                continue
+
+            # Neither a blank nor an escaped character can be the end of a range
+            first, last = item
+
+            while first <= last and escape(first) == '[:blank:]':
+                chars += escape(first)
+                first = chr(ord(first) + 1)
+
+            while first <= last and escape(last) != last:
+                chars += escape(last)
+                last = chr(ord(last) - 1)
+
+            if first <= last:
+                chars += f'{escape(first)}-{last}'
+
+        if self.negated:
+            return f'[!{chars}]'
+
+        return f'[{chars}]'
+
+    def to_bash_glob(self):
+        chars = self._join(lambda c: f'\\{c}' if c in r'^\[]-!' else c)
 
         if self.negated:
             return f'[!{chars}]'
@@ -158,6 +215,9 @@ class ExtGlob(PatternBase):
 
         raise AssertionError("Not reached")
 
+    def to_bash_glob(self):
+        return '%s(%s)' % (self.type, '|'.join(a.to_bash_glob() for a in self.alternatives))
+
 
 class PatternList(PatternBase):
     '''Holds a list of patterns.'''
@@ -171,6 +231,9 @@ class PatternList(PatternBase):
     def to_zsh_glob(self):
         return ''.join(t.to_zsh_glob() for t in self.tokens)
 
+    def to_bash_glob(self):
+        return ''.join(t.to_bash_glob() for t in self.tokens)
+
     def append(self, token):
         '''Add a token.'''
         self.tokens.append(token)
@@ -178,6 +241,8 @@ class PatternList(PatternBase):
 
 EXTGLOB_TOKENS = ('@(', '*(', '+(', '?(', '!(', '+(')
 EXTGLOB_TOKENS_PRE = ('@', '*', '+', '?', '!', '+')
+POSIX_CLASSES = ('alnum', 'alpha', 'blank', 'cntrl', 'digit', 'graph', 'lower',
+                 'print', 'punct', 'space', 'upper', 'xdigit')
 
 
 class GlobLexer(StringStream):
@@ -203,9 +268,15 @@ class GlobLexer(StringStream):
         if c in EXTGLOB_TOKENS_PRE and self.peek() == '(':
             return f'{c}{self.get()}'
 
-        if c in ('[', ']', ')', '?', '!', '*', '|'):
+        if c in (')', '?', '*', '|'):
             return c
 
+        if c == '[':
+            return self._parse_char_class()
+
+        if c == '\\':
+            return Literal(self._parse_escaped())
+
         if c == '"':
             return Literal(self.parse_shell_double_quote(in_quotes=True))
 
@@ -219,13 +290,73 @@ class GlobLexer(StringStream):
                 break
             if c in EXTGLOB_TOKENS_PRE and self.peek(1) == '(':
                 break
-            if c in ('*', '?', '[', ']', ')', '|', '"', "'"):
+            if c in ('*', '?', '[', ')', '|', '"', "'", '\\'):
                 break
             literal += c
             self.get()
 
         return Literal(literal)
 
+    def _parse_escaped(self):
+        if not self.have():
+            raise ValueError('Trailing backslash')
+
+        return self.get()
+
+    def _parse_char_class(self):
+        items = []
+        negated = False
+
+        if self.peek() in ('!', '^'):
+            negated = True
+            self.get()
+
+        while self.have():
+            is_range = (self.peek() == '-' and items and self.peek(1) not in (']', None))
+            c = self.get()
+
+            if c == ']':
+                if not items:
+                    raise ValueError('Empty character class')
+                return CharClass(items, negated)
+
+            if c == '[' and self.peek() in (':', '.', '='):
+                items.append(self._parse_posix_class())
+                continue
+
+            if is_range:
+                if not isinstance(items[-1], str) or len(items[-1]) > 1:
+                    raise ValueError('Invalid range in character class')
+                c = self.get()
+
+            if c == '"':
+                chars = self.parse_shell_double_quote(in_quotes=True)
+            elif c == "'":
+                chars = self.parse_shell_single_quote(in_quotes=True)
+            elif c == '\\':
+                chars = self._parse_escaped()
+            else:
+                chars = c
+
+            if is_range:
+                if len(chars) != 1 or chars < items[-1]:
+                    raise ValueError('Invalid range in character class')
+                items[-1] = (items[-1], chars)
+            else:
+                items.extend(chars)
+
+        raise ValueError('Unclosed character class')
+
+    def _parse_posix_class(self):
+        for name in POSIX_CLASSES:
+            token = f':{name}:]'
+            if ''.join(self.peek(i) or '' for i in range(len(token))) == token:
+                for _ in token:
+                    self.get()
+                return name
+
+        raise ValueError('Invalid character class')
+
 
 class GlobParser:
     '''Parses tokens from GlobLexer.'''
@@ -258,33 +389,6 @@ class GlobParser:
             root.append(self._parse_token())
         return root
 
-    def _parse_char_class(self):
-        chars = ''
-        negated = False
-
-        try:
-            token = self.get()
-        except IndexError as e:
-            raise ValueError('Unclosed character class') from e
-
-        if token == '!':
-            negated = True
-        elif token == ']':
-            raise ValueError('Empty character class')
-        else:
-            chars += str(token)
-
-        while True:
-            try:
-                token = self.get()
-            except IndexError as e:
-                raise ValueError('Unclosed character class') from e
-
-            if token == ']':
-                return CharClass(chars, negated)
-
-            chars += str(token)
-
     def _parse_ext_glob(self, token):
         type_ = token[0]
         alternatives = [PatternList()]
@@ -307,9 +411,6 @@ class GlobParser:
     def _parse_token(self):
         token = self.get()
 
-        if token == '[':
-            return self._parse_char_class()
-
         if token == '*':
             return Star()
 
@@ -319,6 +420,9 @@ class GlobParser:
         if token in EXTGLOB_TOKENS:
             return self._parse_ext_glob(token)
 
+        if token in (')', '|'):
+            return Literal(token)
+
         return token
 
 
@@ -338,6 +442,17 @@ def bash_glob_to_zsh_glob(pattern):
     return tokens.to_zsh_glob()
 
 
+def bash_glob_without_quotes(pattern):
+    '''Transform a bash glob to one that doesn't contain any quotes.
+
+    Quotes have no special meaning in patterns that result from an expansion.
+    '''
+
+    tokens = GlobLexer(pattern).parse()
+    tokens = GlobParser(tokens).parse()
+    return tokens.to_bash_glob()
+
+
 def test():
     '''Tests.'''
 
@@ -376,34 +491,34 @@ def test():
         (6,  r'.',                   r'\.',                 r'.'),
         (7,  r'+',                   r'\+',                 r'+'),
         (8,  r'@',                   r'@',                  r'@'),
-        (9,  r'"["',                 r'\[',                 r"'['"),
-        (10, r"'['",                 r'\[',                 r"'['"),
-        (11, r'"]"',                 r'\]',                 r"']'"),
-        (12, r"']'",                 r'\]',                 r"']'"),
-        (13, r"'*'",                 r'\*',                 r"'*'"),
-        (14, r"'?'",                 r'\?',                 r"'?'"),
+        (9,  r'"["',                 r'\[',                 r'\['),
+        (10, r"'['",                 r'\[',                 r'\['),
+        (11, r'"]"',                 r'\]',                 r'\]'),
+        (12, r"']'",                 r'\]',                 r'\]'),
+        (13, r"'*'",                 r'\*',                 r'\*'),
+        (14, r"'?'",                 r'\?',                 r'\?'),
 
         # Simple globbing
-        (15, r'*',                   r'.*',                 r'*'),
-        (16, r'?',                   r'.',                  r'?'),
-        (17, r'???',                 r'...',                r'???'),
+        (15, r'*',                   r'[^/]*',              r'*'),
+        (16, r'?',                   r'[^/]',               r'?'),
+        (17, r'???',                 r'[^/][^/][^/]',       r'???'),
 
         # Literals + simple globbing
-        (18, r'*abc*',               r'.*abc.*',            r'*abc*'),
-        (19, r'*.*',                 r'.*\..*',             r'*.*'),
-        (20, r'*+*',                 r'.*\+.*',             r'*+*'),
+        (18, r'*abc*',               r'[^/]*abc[^/]*',      r'*abc*'),
+        (19, r'*.*',                 r'[^/]*\.[^/]*',       r'*.*'),
+        (20, r'*+*',                 r'[^/]*\+[^/]*',       r'*+*'),
 
         # Character classes
         (21, r'[abc]',               r'[abc]',              r'[abc]'),
         (22, r'[.]',                 r'[\.]',               r'[.]'),
         (23, r'[+]',                 r'[+]',                r'[+]'),
-        (24, r'[}]',                 r'[}]',                r'[}]'),
-        (25, r'[{]',                 r'[{]',                r'[{]'),
-        (26, r'[*]',                 r'[*]',                r'[*]'),
-        (27, r'[(]',                 r'[(]',                r'[(]'),
-        (28, r'[)]',                 r'[)]',                r'[)]'),
-        (29, r'["["]',               r'[\[]',               r"['[']"),
-        (30, r'["]"]',               r'[\]]',               r"[']']"),
+        (24, r'[}]',                 r'[}]',                r'[\}]'),
+        (25, r'[{]',                 r'[{]',                r'[\{]'),
+        (26, r'[*]',                 r'[*]',                r'[\*]'),
+        (27, r'[(]',                 r'[(]',                r'[\(]'),
+        (28, r'[)]',                 r'[)]',                r'[\)]'),
+        (29, r'["["]',               r'[\[]',               r'[\[]'),
+        (30, r'["]"]',               r'[\]]',               r'[\]]'),
 
         # Extglob @
         (31, r'@(foo)',              r'(foo)',              r'(foo)'),
@@ -432,8 +547,8 @@ def test():
         (44, r'@([abc]|foo)',        r'([abc]|foo)',        r'([abc]|foo)'),
         (45, r'@(@(foo|bar))',       r'((foo|bar))',        r'((foo|bar))'),
         (46, r'@(@("foo"|bar))',     r'((foo|bar))',        r'((foo|bar))'),
-        (47, r'@(?|bar)',            r'(.|bar)',            r'(?|bar)'),
-        (48, r'@(*baz|bar)',         r'(.*baz|bar)',        r'(*baz|bar)'),
+        (47, r'@(?|bar)',            r'([^/]|bar)',         r'(?|bar)'),
+        (48, r'@(*baz|bar)',         r'([^/]*baz|bar)',     r'(*baz|bar)'),
 
         # Syntax errors
         (70, r'@(foo',               ValueError,            ValueError),
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index d316fcf..0a207f2 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -6,6 +6,7 @@
 from . import algo
 from . import shell
 from . import string_stream
+from .pattern import Literal
 
 # pylint: disable=too-many-branches
 # pylint: disable=too-many-arguments
@@ -237,6 +238,8 @@ def make_file_extension_pattern(extensions, fuzzy):
         '*.(#i)(txt|jpg)'
     '''
 
+    extensions = [Literal(e).to_zsh_glob() for e in extensions]
+
     if len(extensions) == 1:
         pattern = '*.(#i)%s' % extensions[0]
     else:
-- 
2.43.0


From 5646132646abfe454054b31217685feb84ae9ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 39/63] fix: keep backslashes in double quotes before ordinary
 characters, don't read chars as POSIX classes

---
 crazy_complete/pattern.py       | 2 +-
 crazy_complete/string_stream.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/pattern.py b/crazy_complete/pattern.py
index 5787fcd..0150ea0 100644
--- a/crazy_complete/pattern.py
+++ b/crazy_complete/pattern.py
@@ -121,7 +121,7 @@ class CharClass(PatternBase):
         return r
 
     def to_regex(self):
-        chars = self._join(lambda c: f'\\{c}' if c in r'^\.[]-' else c)
+        chars = self._join(lambda c: f'\\{c}' if c in r'^\.[]-:' else c)
 
         if self.negated:
             return f'[^/{chars}]'
diff --git a/crazy_complete/string_stream.py b/crazy_complete/string_stream.py
index 782c4bb..71c391b 100644
--- a/crazy_complete/string_stream.py
+++ b/crazy_complete/string_stream.py
@@ -77,10 +77,12 @@ class StringStream:
 
             if c == '\\':
                 try:
-                    string += self.get()
+                    c = self.get()
                 except IndexError as e:
                     raise ValueError("Missing character after backslash") from e
 
+                string += c if c in '$`"\\' else f'\\{c}'
+
             elif c == '"':
                 return string
 
-- 
2.43.0


From 42a17a389b5ab90f6345e494798dee34680cef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:54 +0000
Subject: [PATCH 40/63] fix: reject command_arg nested at any depth in other
 completers, validate long_opt_arg_sep

---
 crazy_complete/completion_validator.py | 1 +
 crazy_complete/scheme_validator.py     | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crazy_complete/completion_validator.py b/crazy_complete/completion_validator.py
index 87c9059..10bac60 100644
--- a/crazy_complete/completion_validator.py
+++ b/crazy_complete/completion_validator.py
@@ -48,6 +48,7 @@ def _option_to_definition(option):
         'hidden':         option.hidden,
         'when':           option.when,
         'capture':        option.capture,
+        'long_opt_arg_sep': option.long_opt_arg_sep,
     }
 
 
diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 9f23a78..c790c88 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -232,9 +232,10 @@ def _check_command(_ctxt, arguments):
 def _check_command_arg(ctxt, arguments):
     arguments.require_no_more()
 
-    if ctxt.trace and ctxt.trace[-1] in ('combine', 'list', 'key_value_list', 'key_value_pair'):
-        msg = m.completer_not_allowed_in('command_arg', ctxt.trace[-1])
-        raise _error(msg, arguments.args)
+    for completer in reversed(ctxt.trace):
+        if completer in ('combine', 'list', 'key_value_list', 'key_value_pair'):
+            msg = m.completer_not_allowed_in('command_arg', completer)
+            raise _error(msg, arguments.args)
 
     if ctxt.type != Context.TYPE_POSITIONAL:
         msg = m.completer_not_allowed_in_option('command_arg')
@@ -248,7 +249,7 @@ def _check_command_arg(ctxt, arguments):
     def command_is_previous_to_command_arg(positional):
         return (
             _has_set(positional, 'complete') and
-            positional.value['complete'].value[0] == 'command' and
+            positional.value['complete'].value[:1] == ['command'] and
             positional.value['number'].value + 1 == ctxt.positional.value['number'].value
         )
 
-- 
2.43.0


From e224b42253761b233df7f2b68b8f9a9e2fb37ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 41/63] fix: don't look up abbreviations of subcommands in
 their parent (Bash)

---
 crazy_complete/bash_option_completion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash_option_completion.py b/crazy_complete/bash_option_completion.py
index f73a151..ff72333 100644
--- a/crazy_complete/bash_option_completion.py
+++ b/crazy_complete/bash_option_completion.py
@@ -221,14 +221,18 @@ class _Info:
         all_options = self.commandline.get_options(
             with_parent_options=self.commandline.inherit_options)
 
+        old_option_strings = abbreviations.get_many_abbreviations(
+            algo.flatten([o.get_old_option_strings() for o in all_options]))
+
         if self.commandline.inherit_options:
             # The options of subcommands may precede our options in a cluster
             for cmdline in self.commandline.get_all_commandlines():
                 if cmdline is not self.commandline:
                     all_options.extend(cmdline.options)
+                    old_option_strings.extend(
+                        utils.get_option_abbreviator(cmdline).get_many_abbreviations(
+                            algo.flatten([o.get_old_option_strings() for o in cmdline.options])))
 
-        old_option_strings = algo.flatten([o.get_old_option_strings() for o in all_options])
-        old_option_strings = abbreviations.get_many_abbreviations(old_option_strings)
         self.old_option_strings = bash_utils.CasePatterns.for_old_without_arg(old_option_strings)
 
         # Long and old-style options whose argument can't be given using `=`
-- 
2.43.0


From 1d74314f1eb7e12883f5d205a03c40c3f215c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:53 +0000
Subject: [PATCH 42/63] fix: don't raise IndexError at the end of help texts

---
 crazy_complete/help_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/help_parser.py b/crazy_complete/help_parser.py
index 89ed01e..bc835a2 100644
--- a/crazy_complete/help_parser.py
+++ b/crazy_complete/help_parser.py
@@ -282,7 +282,8 @@ def parse_option_delimiter(stream):
     '''Parse an option delimiter and return True if it was found, False otherwise.'''
     p = stream.copy()
     eat_space(p)
-    if p.get() in (',', '|'):
+    if p.peek() in OPTION_DELIMITER_CHARS:
+        p.get()
         stream.pos = p.pos
         return True
     return False
@@ -333,4 +334,6 @@ def get_program_name_from_help(string):
     m = re.match('usage:[\n\t ]+([^\n\t ]+)', string, re.I)
     if m:
         return m[1]
-    return string.split()[0]
+
+    words = string.split()
+    return words[0] if words else 'program'
-- 
2.43.0


From c62dc3eb53886f96582de4fa9dbf8609780a4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:53 +0000
Subject: [PATCH 43/63] fix: look for parsers in the executed Python file,
 report errors of Python files

---
 crazy_complete/argparse_source.py | 12 ++++++++++--
 crazy_complete/file_loader.py     |  8 +++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index c980be0..ea94089 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -232,16 +232,24 @@ def load_from_file(file, parser_variable=None, parser_blacklist=()):
 
     try:
         module = file_loader.import_file(file)
-    except Exception as e:
+    except (Exception, SystemExit) as e:
         utils.warn(e)
         utils.warn(f"Failed to load `{file}` using importlib, falling back to exec")
-        module = file_loader.execute_file(file)
+        try:
+            module = file_loader.execute_file(file)
+        except OSError:
+            raise
+        except Exception as exc:
+            raise CrazyError(f"Failed to load `{file}`: {exc!r}") from exc
 
     if parser_variable is not None:
         try:
             parser = getattr(module, parser_variable)
         except AttributeError:
             raise CrazyError(f"No variable named `{parser_variable}` found in `{file}`") from None
+
+        if not isinstance(parser, argparse.ArgumentParser):
+            raise CrazyError(f"`{parser_variable}` in `{file}` is not an ArgumentParser object")
     else:
         parsers = find_root_argument_parsers(module)
         for blacklisted in parser_blacklist:
diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index 792cf78..4a23b71 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -7,11 +7,13 @@ import os
 import sys
 import importlib
 import tempfile
-import __main__
+import types
 
 
 def execute_file(file):
     '''Import file using compile + exec.'''
+    module = types.ModuleType('crazy_complete_definition')
+
     with open(os.devnull, 'w', encoding='utf-8') as null_fh:
         sys.stdout = null_fh
         sys.stderr = null_fh
@@ -22,14 +24,14 @@ def execute_file(file):
                 compiled = compile(source, file, 'exec')
                 try:
                     # pylint: disable=exec-used
-                    exec(compiled, globals())
+                    exec(compiled, module.__dict__)
                 except SystemExit:
                     pass
         finally:
             sys.stdout = sys.__stdout__
             sys.stderr = sys.__stderr__
 
-    return __main__
+    return module
 
 
 def import_file(file):
-- 
2.43.0


From d0744cc3cd2d3bac951db24760561d2029b2c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:53 +0000
Subject: [PATCH 44/63] fix: validate the YAML values that are loaded, report
 invalid YAML scalars

---
 crazy_complete/extended_yaml_parser.py | 43 +++++++++++---------------
 crazy_complete/yaml_source.py          | 10 +++++-
 2 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/crazy_complete/extended_yaml_parser.py b/crazy_complete/extended_yaml_parser.py
index cd1f2ec..95a54cf 100644
--- a/crazy_complete/extended_yaml_parser.py
+++ b/crazy_complete/extended_yaml_parser.py
@@ -4,6 +4,7 @@
 '''YAML Parser with column and line information.'''
 
 import yaml
+from yaml.nodes import ScalarNode
 from yaml.events import (StreamStartEvent,
                          DocumentStartEvent, DocumentEndEvent,
                          MappingStartEvent, MappingEndEvent,
@@ -22,6 +23,7 @@ class ExtendedYAMLParser:
 
     def __init__(self):
         self.src = None
+        self.loader = None
         self.data = []
         self.current_stack = []
         self.current_key = None
@@ -40,7 +42,8 @@ class ExtendedYAMLParser:
         self.current_stack = []
         self.current_key = None
 
-        loader = yaml.Loader(stream)
+        # The constructors of `SafeLoader` are used for converting scalars
+        loader = self.loader = yaml.SafeLoader(stream)
         try:
             while True:
                 event = loader.get_event()
@@ -75,10 +78,13 @@ class ExtendedYAMLParser:
             self.current_stack.append(new_seq)
             self.current_key = None
         elif isinstance(event, ScalarEvent):
-            value = self.convert_scalar(event.value, event.implicit)
+            value = self.convert_scalar(event)
             value = ValueWithTrace.from_yaml_event(value, self.src, event)
 
-            if self.current_stack and isinstance(self.current_stack[-1].value, list):
+            if not self.current_stack:
+                # The document consists of a scalar
+                self.current_stack.append(value)
+            elif isinstance(self.current_stack[-1].value, list):
                 self.add_to_current_structure(None, value)
             else:
                 if self.current_key is None:
@@ -111,30 +117,17 @@ class ExtendedYAMLParser:
         else:
             raise _error("Invalid structure in YAML", value)
 
-    def convert_scalar(self, value, implicit):
+    def convert_scalar(self, event):
         """
-        Converts a scalar based on its type hints (implicit tuple).
+        Converts a scalar to the value that `yaml.safe_load` returns for it.
         """
-        if implicit[0]:
-            lower = value.lower()
+        tag = event.tag
 
-            if lower in ("null", "~", ""):
-                return None
+        if tag is None or tag == '!':
+            tag = self.loader.resolve(ScalarNode, event.value, event.implicit)
 
-            if lower in ("true", "on", "yes"):
-                return True
+        if tag == 'tag:yaml.org,2002:merge':
+            return event.value
 
-            if lower in ("false", "off", "no"):
-                return False
-
-            try:
-                return int(value)
-            except ValueError:
-                pass
-
-            try:
-                return float(value)
-            except ValueError:
-                pass
-
-        return value
+        node = ScalarNode(tag, event.value, event.start_mark, event.end_mark)
+        return self.loader.construct_object(node, deep=True)
diff --git a/crazy_complete/yaml_source.py b/crazy_complete/yaml_source.py
index 9ca845b..dd05112 100644
--- a/crazy_complete/yaml_source.py
+++ b/crazy_complete/yaml_source.py
@@ -15,6 +15,7 @@ from . import scheme_validator
 from .str_utils import indent
 from .extended_yaml_parser import ExtendedYAMLParser
 from .cli import INHERIT
+from .errors import CrazyError
 
 
 # pylint: disable=redefined-builtin
@@ -209,7 +210,14 @@ def load_from_file(file):
     # First, load using normal yaml loader. It gives better error messages
     # in case of syntax errors.
     with open(file, 'r', encoding='utf-8') as fh:
-        dictionaries = list(yaml.safe_load_all(fh))
+        try:
+            dictionaries = list(yaml.safe_load_all(fh))
+        except (AttributeError, LookupError, TypeError, ValueError) as e:
+            if isinstance(e, UnicodeError):
+                raise
+
+            # Scalars that don't match their (implicit) tag
+            raise CrazyError(f'{file}: Invalid value: {e}') from e
 
     # Then load using extended yaml loader...
     with open(file, 'r', encoding='utf-8') as fh:
-- 
2.43.0


From bd3dfa5ed819c851b1c0b8bb109c87c8f7543aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:53 +0000
Subject: [PATCH 45/63] fix: report unreadable, undecodable and malformed input
 as errors, encode output before truncating files

---
 crazy-complete                         | 14 ++++-----
 crazy_complete/application.py          | 14 +++++++--
 crazy_complete/completion_validator.py |  3 +-
 crazy_complete/dictionary_source.py    | 16 +++++++----
 crazy_complete/json_source.py          | 12 ++++++--
 crazy_complete/scheme_validator.py     | 39 ++++++++++++++++----------
 6 files changed, 64 insertions(+), 34 deletions(-)

diff --git a/crazy-complete b/crazy-complete
index d830658..7689ed6 100755
--- a/crazy-complete
+++ b/crazy-complete
@@ -34,20 +34,18 @@ if __name__ == '__main__':
 
     try:
         app.parse_args(sys.argv[1:])
+        app.run()
     except argparse.ArgumentError as e:
         print_err('Command line error:', e)
         sys.exit(2)
-
-    try:
-        app.run()
     except (application.CrazyError,
-            FileNotFoundError,
-            yaml.scanner.ScannerError,
-            yaml.parser.ParserError,
-            yaml.constructor.ConstructorError,
+            OSError,
+            UnicodeError,
+            RecursionError,
+            yaml.YAMLError,
             json.decoder.JSONDecodeError) as e:
         print_err('Error:', e)
-        if app.options.debug:
+        if '--debug' in sys.argv:
             traceback.print_exc()
         else:
             print_err('Pass --debug to see full stack trace')
diff --git a/crazy_complete/application.py b/crazy_complete/application.py
index e03c6a6..b4a7fa8 100644
--- a/crazy_complete/application.py
+++ b/crazy_complete/application.py
@@ -199,8 +199,11 @@ def write_string_to_file(string, file):
     '''Writes string to file if file is given.'''
 
     if file is not None:
-        with open(file, 'w', encoding='utf-8') as fh:
-            fh.write(string)
+        # Don't truncate the file if the string can't be encoded
+        data = string.encode('utf-8')
+
+        with open(file, 'wb') as fh:
+            fh.write(data)
     else:
         print(string)
 
@@ -316,8 +319,13 @@ def try_batch(args):
 
         utils.print_err('Running:', sys.argv[0], line)
 
+        try:
+            line_args = shlex.split(line)
+        except ValueError as e:
+            raise CrazyError(f'{opts.batch}: {e}: {line}') from e
+
         app = Application()
-        app.parse_args(shlex.split(line))
+        app.parse_args(line_args)
         app.run()
 
     sys.exit(0)
diff --git a/crazy_complete/completion_validator.py b/crazy_complete/completion_validator.py
index 10bac60..f3dd1e9 100644
--- a/crazy_complete/completion_validator.py
+++ b/crazy_complete/completion_validator.py
@@ -13,6 +13,7 @@
 from types import NoneType
 
 from . import scheme_validator
+from .errors import CrazyTypeError
 from .value_with_trace import ValueWithOutTrace
 
 
@@ -31,7 +32,7 @@ def _mk_value_without_trace(value):
     if isinstance(value, dict):
         return ValueWithOutTrace({mk(k): mk(v) for k, v in value.items()})
 
-    raise AssertionError(f"Not reached: {value!r}")
+    raise CrazyTypeError('complete', 'str|int|float|bool|list|dict|None', value)
 
 
 def _option_to_definition(option):
diff --git a/crazy_complete/dictionary_source.py b/crazy_complete/dictionary_source.py
index 27eca9d..9ba3860 100644
--- a/crazy_complete/dictionary_source.py
+++ b/crazy_complete/dictionary_source.py
@@ -15,7 +15,10 @@ from .str_utils import validate_prog
 from . import compat
 
 
-def _validate_keys(dictionary, allowed_keys):
+def _validate_keys(dictionary, allowed_keys, name):
+    if not isinstance(dictionary, dict):
+        raise CrazyTypeError(name, 'dict', dictionary)
+
     for key in dictionary.keys():
         if key not in allowed_keys:
             raise CrazyError(f'Unknown key: {key}')
@@ -27,7 +30,7 @@ def dictionary_to_commandline(dictionary, prog=None):
     _validate_keys(dictionary,
         ['prog', 'help', 'aliases', 'wraps',
          'abbreviate_commands', 'abbreviate_options',
-         'inherit_options', 'options', 'positionals'])
+         'inherit_options', 'options', 'positionals'], 'command')
 
     options = dictionary.get('options', [])
     if not isinstance(options, list):
@@ -51,7 +54,7 @@ def dictionary_to_commandline(dictionary, prog=None):
         _validate_keys(option,
             ['option_strings', 'metavar', 'help', 'optional_arg', 'groups',
              'repeatable', 'final', 'hidden', 'complete', 'nosort',
-             'when', 'capture', 'long_opt_arg_sep'])
+             'when', 'capture', 'long_opt_arg_sep'], 'option')
 
         commandline.add_option(
             option.get('option_strings',  None),
@@ -72,7 +75,7 @@ def dictionary_to_commandline(dictionary, prog=None):
     for positional in positionals:
         _validate_keys(positional,
             ['number', 'metavar', 'help', 'repeatable', 'complete', 'nosort',
-             'when', 'capture'])
+             'when', 'capture'], 'positional')
 
         commandline.add_positional(
             positional.get('number', None),
@@ -88,7 +91,7 @@ def dictionary_to_commandline(dictionary, prog=None):
 
 
 def _check_prog_in_dictionary(dictionary):
-    if 'prog' not in dictionary:
+    if not isinstance(dictionary, dict) or 'prog' not in dictionary:
         raise CrazyError('Missing `prog` field')
 
     if not isinstance(dictionary['prog'], str):
@@ -163,6 +166,9 @@ def replace_defines_in_documents(documents):
 def dictionaries_to_commandline(dictionaries):
     '''Convert a list of dictionaries to a cli.CommandLine object.'''
 
+    if not isinstance(dictionaries, list):
+        raise CrazyTypeError('commands', 'list', dictionaries)
+
     dictionaries = replace_defines_in_documents(deepcopy(dictionaries))
     compat.fix_commandline_dictionaries(dictionaries)
 
diff --git a/crazy_complete/json_source.py b/crazy_complete/json_source.py
index 0d8ed21..578252d 100644
--- a/crazy_complete/json_source.py
+++ b/crazy_complete/json_source.py
@@ -9,14 +9,22 @@ and vice versa.
 import json
 
 from . import dictionary_source
+from .errors import CrazyError
 
 
 def load_from_file(file):
     '''Load a JSON file and turn it into a cli.CommandLine object.'''
 
     with open(file, 'r', encoding='utf-8') as fh:
-        dictionaries = json.load(fh)
-        return dictionary_source.dictionaries_to_commandline(dictionaries)
+        try:
+            dictionaries = json.load(fh)
+        except (json.JSONDecodeError, UnicodeError):
+            raise
+        except ValueError as e:
+            # Integers with too many digits
+            raise CrazyError(f'{file}: {e}') from e
+
+    return dictionary_source.dictionaries_to_commandline(dictionaries)
 
 
 def commandline_to_json(commandline):
diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index c790c88..4dfd53a 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -247,10 +247,21 @@ def _check_command_arg(ctxt, arguments):
         raise _error(msg, ctxt.positional)
 
     def command_is_previous_to_command_arg(positional):
+        # The other positionals may not have been checked yet
+        if not isinstance(positional.value, dict):
+            return False
+
+        if not _has_set(positional, 'complete') or not _has_set(positional, 'number'):
+            return False
+
+        complete = positional.value['complete'].value
+        number = positional.value['number'].value
+
         return (
-            _has_set(positional, 'complete') and
-            positional.value['complete'].value[:1] == ['command'] and
-            positional.value['number'].value + 1 == ctxt.positional.value['number'].value
+            isinstance(complete, list) and
+            complete[:1] == ['command'] and
+            isinstance(number, int) and
+            number + 1 == ctxt.positional.value['number'].value
         )
 
     positionals = ctxt.definition.value['positionals'].value
@@ -820,7 +831,7 @@ def _check_option(ctxt, option):
         try:
             option_strings = option.value['option_strings'].value
             option_strings = '|'.join([o.value for o in option_strings])
-        except (KeyError, TypeError):
+        except (AttributeError, KeyError, TypeError):
             raise e from None
 
         msg = '%s: %s' % (option_strings, e.message)
@@ -862,17 +873,13 @@ def _check_positional(ctxt, positional):
     except _error as e:
         metavar = 'unknown'
 
-        try:
-            metavar = 'positional #%d' % positional.value['number'].value
-        except (KeyError, TypeError):
-            pass
-
-        try:
-            metavar_ = positional.value['metavar'].value
-            assert isinstance(metavar_, str)
-            metavar = metavar_
-        except (AssertionError, KeyError):
-            pass
+        if isinstance(positional.value, dict):
+            if (_has_set(positional, 'metavar') and
+                isinstance(positional.value['metavar'].value, str)):
+                metavar = positional.value['metavar'].value
+            elif (_has_set(positional, 'number') and
+                  isinstance(positional.value['number'].value, int)):
+                metavar = 'positional #%d' % positional.value['number'].value
 
         msg = '%s: %s' % (metavar, e.message)
         raise _error(msg, e.value_with_trace) from e
@@ -950,6 +957,8 @@ class DefinitionTree:
         if not _has_set(definition, 'prog'):
             raise _error('%s: %s' % (m.missing_arg(), 'prog'), definition)
 
+        _check_type(definition.value['prog'], (str,), 'prog')
+
         try:
             validate_prog(definition.value['prog'].value)
         except CrazyError as e:
-- 
2.43.0


From 9dda3a67076bcdfa9dac2d42dad45b25ee8b7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 46/63] fix: never generate empty function names or names
 starting with - or %, protect messages starting with + (Zsh)

---
 crazy_complete/helpers.py   | 5 ++++-
 crazy_complete/zsh_utils.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index 0ef202a..c45fec6 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -104,6 +104,9 @@ class GeneralHelpers:
         self.config = config
         self.function_prefix = make_function_name(
             config.function_prefix.replace('$PROG', prog))
+        # Fish takes a leading `-` for an option, Bash a leading `%` for a job
+        if self.function_prefix.startswith(('-', '%')):
+            self.function_prefix = '_' + self.function_prefix[1:]
         self.function_class = function_class
 
         # Dynamic functions
@@ -266,7 +269,7 @@ class GeneralHelpers:
         commandlines = commandline.get_parents(include_self=True)
         prognames = [cmdline.prog for cmdline in commandlines]
         prognames[0] = self.function_prefix
-        identifier = shell.make_identifier('_'.join(prognames))
+        identifier = shell.make_identifier('_'.join(prognames)) or '_'
 
         path = (tuple(prognames), suffix)
         if path not in self.completion_funcnames:
diff --git a/crazy_complete/zsh_utils.py b/crazy_complete/zsh_utils.py
index 0a207f2..0499355 100644
--- a/crazy_complete/zsh_utils.py
+++ b/crazy_complete/zsh_utils.py
@@ -58,7 +58,7 @@ def escape_spec_description(s):
 def protect_message(s):
     '''Ensure that a message isn't taken for an option or for a specification.'''
 
-    if s.startswith(('-', '*')):
+    if s.startswith(('-', '+', '*')):
         return ' ' + s
 
     return s
-- 
2.43.0


From d75bf66acf114b81482463763e005e03d2681287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 47/63] fix: don't rename parts of function names that contain
 the name of a helper

---
 crazy_complete/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index c45fec6..a73263c 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -17,7 +17,8 @@ from .str_utils import (indent, strip_comments, strip_double_empty_lines)
 def replace_function_name(search, replace, s):
     '''Safely replace a function name in code'''
 
-    pattern = f'\\b{search}\\b'
+    # All characters that may occur in function names (see make_function_name)
+    pattern = f'(?<![\\w@%+:,.-]){search}(?![\\w@%+:,.-])'
     return re.sub(pattern, replace, s)
 
 
-- 
2.43.0


From 287c59e969997cf42fef94b51142c2a1b82b4fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:57 +0000
Subject: [PATCH 48/63] fix: don't preprocess dynamic functions, which contain
 text of the user

---
 crazy_complete/helpers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/helpers.py b/crazy_complete/helpers.py
index a73263c..82d9769 100644
--- a/crazy_complete/helpers.py
+++ b/crazy_complete/helpers.py
@@ -34,6 +34,11 @@ class FunctionBase:
         '''Return the whole function.'''
         raise NotImplementedError
 
+    @staticmethod
+    def make_definition(funcname, code):
+        '''Return the definition of a function that consists of `code`.'''
+        raise NotImplementedError
+
 
 class ShellFunction(FunctionBase):
     '''Class for generating Bash and Zsh functions.'''
@@ -45,7 +50,10 @@ class ShellFunction(FunctionBase):
         code = self.code.replace('%FUNCNAME%', funcname)
         code = preprocessor.preprocess(code, defines)
         code = strip_double_empty_lines(code)
+        return self.make_definition(funcname, code)
 
+    @staticmethod
+    def make_definition(funcname, code):
         r  = '%s() {\n' % funcname
         r += '%s\n'     % indent(code, 2).rstrip()
         r += '}'
@@ -62,7 +70,10 @@ class FishFunction(FunctionBase):
         code = self.code.replace('%FUNCNAME%', funcname)
         code = preprocessor.preprocess(code, defines)
         code = strip_double_empty_lines(code)
+        return self.make_definition(funcname, code)
 
+    @staticmethod
+    def make_definition(funcname, code):
         r  = 'function %s\n' % funcname
         r += '%s\n'          % indent(code, 2).rstrip()
         r += 'end'
@@ -165,7 +176,8 @@ class GeneralHelpers:
 
         r = []
         for code, funcname in self.dynamic_functions_code_to_funcname.items():
-            r.append(self.function_class(funcname, code).get_code())
+            # Contains text of the user, not to be preprocessed
+            r.append(self.function_class.make_definition(funcname, code.strip()))
         return r
 
     # =========================================================================
-- 
2.43.0


From 734dd36e6e35161ec0873d1f11acbdcb2f883975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:13 +0000
Subject: [PATCH 49/63] fix: keep metavars and descriptions of options, don't
 read brackets and quotes beyond their line (help texts)

---
 crazy_complete/help_converter.py |  2 +-
 crazy_complete/help_parser.py    | 65 ++++++++++++++++++++------------
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/crazy_complete/help_converter.py b/crazy_complete/help_converter.py
index 0b4205a..f6d8012 100644
--- a/crazy_complete/help_converter.py
+++ b/crazy_complete/help_converter.py
@@ -59,7 +59,7 @@ def complete_for_metavar(string):
         'group':        ['group'],
         'program':      ['command'],
         'command':      ['command'],
-        'cmd':          ['cmd'],
+        'cmd':          ['command'],
         'signal':       ['signal'],
         'sig':          ['signal'],
     }
diff --git a/crazy_complete/help_parser.py b/crazy_complete/help_parser.py
index bc835a2..2468585 100644
--- a/crazy_complete/help_parser.py
+++ b/crazy_complete/help_parser.py
@@ -109,7 +109,7 @@ def parse_option_string(stream):
     if p.peek() != '-':
         return None
 
-    while not p.is_end() and p.peek() not in OPTION_BREAK_CHARS:
+    while not p.is_end() and p.peek() not in OPTION_BREAK_CHARS and not p.peek().isspace():
         option += p.get()
 
     if option in ('-', '--'):
@@ -119,6 +119,23 @@ def parse_option_string(stream):
     return option
 
 
+def _parse_enclosed(stream, closing):
+    '''Read and return everything up to (including) `closing`.
+
+    If `closing` isn't found on the current line, only one char is returned.
+    '''
+    p = stream.copy()
+    content = p.get()
+    while p.peek() not in (None, '\n'):
+        char = p.get()
+        content += char
+        if char == closing:
+            stream.pos = p.pos
+            return content
+
+    return stream.get()
+
+
 def parse_bracket(stream):
     '''Read and return a bracketed expression.
 
@@ -128,20 +145,12 @@ def parse_bracket(stream):
         (foo bar)
         {foo bar}
     '''
-    content = stream.peek()
     try:
-        closing = {'<':'>', '[':']', '(':')', '{':'}'}[content]
+        closing = {'<':'>', '[':']', '(':')', '{':'}'}[stream.peek()]
     except KeyError:
         return None
 
-    stream.get()
-    while not stream.is_end():
-        char = stream.get()
-        content += char
-        if char == closing:
-            break
-
-    return content
+    return _parse_enclosed(stream, closing)
 
 
 def parse_quoted_string(stream):
@@ -158,15 +167,7 @@ def parse_quoted_string(stream):
     if quote not in ('"', "'"):
         return None
 
-    stream.get()
-    content = quote
-    while not stream.is_end():
-        char = stream.get()
-        content += char
-        if char == quote:
-            break
-
-    return content
+    return _parse_enclosed(stream, quote)
 
 
 def parse_metavar(stream):
@@ -193,7 +194,7 @@ def parse_metavar(stream):
             metavar += parse_bracket(stream)
         elif stream.peek() in ('"', "'"):
             metavar += parse_quoted_string(stream)
-        elif stream.peek() in OPTION_DELIMITER_CHARS:
+        elif is_option_delimiter(stream):
             break
         else:
             metavar += stream.get()
@@ -243,6 +244,7 @@ def parse_option_with_metavar(stream):
     Valid inputs are:
       --option=METAVAR
       --option[=METAVAR] (in this case, 'optional' is set to True)
+      --option[METAVAR]  (same)
       --option METAVAR
 
     Invalid inputs are:
@@ -261,12 +263,16 @@ def parse_option_with_metavar(stream):
             stream.get()
             metavar = parse_metavar(stream)
 
+        elif stream.peek() == '[':
+            optional = True
+            metavar = parse_metavar(stream)
+
         # Two spaces after --option means the description follows
         elif stream.peek_str(2).isspace():
             return OptionWithMetavar(opt, metavar, optional)
 
         # An option delimiter cannot be a metavar
-        elif parse_option_delimiter(stream.copy()):
+        elif is_option_delimiter(stream):
             return OptionWithMetavar(opt, metavar, optional)
 
         elif not stream.is_end() and stream.is_space():
@@ -289,6 +295,14 @@ def parse_option_delimiter(stream):
     return False
 
 
+def is_option_delimiter(stream):
+    '''Check if there is a delimiter that is followed by an option or a space.'''
+    p = stream.copy()
+    if not parse_option_delimiter(p):
+        return False
+    return p.is_end() or p.peek().isspace() or parse_option_string(p) is not None
+
+
 def parse_options_with_description(stream):
     '''Parse options with description.'''
     options = []
@@ -301,14 +315,15 @@ def parse_options_with_description(stream):
         else:
             break
 
-        if not parse_option_delimiter(stream):
+        if not is_option_delimiter(stream):
             break
 
+        parse_option_delimiter(stream)
+
     if not options:
         return None
 
-    # if s.peek() == '\n' or s.peek_str(2) in ('  ', ' \n'):
-    if stream.peek() in (' ', '\t', '\n'):
+    if not stream.is_end():
         description = parse_description(stream)
 
     return OptionsWithDescription(options, description)
-- 
2.43.0


From 3c27968ee45842f9a1612bb068f692469ad44e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:35 +0000
Subject: [PATCH 50/63] fix: write valid YAML for every help text

---
 crazy_complete/help_converter.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/help_converter.py b/crazy_complete/help_converter.py
index f6d8012..9abe860 100644
--- a/crazy_complete/help_converter.py
+++ b/crazy_complete/help_converter.py
@@ -3,6 +3,8 @@
 
 '''This module contains functions for generating a YAML file from help texts.'''
 
+import re
+
 from . import help_parser
 from . import yaml_source
 from .str_utils import indent
@@ -92,6 +94,18 @@ def complete_for_metavar(string):
     return ['none']
 
 
+def make_comment(text):
+    '''Return `text` as YAML comment.'''
+
+    # Neither control characters nor further line separators are allowed
+    text = re.sub(
+        '[^\t\x20-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd\U00010000-\U0010ffff]',
+        lambda m: ascii(m.group())[1:-1],
+        text.rstrip())
+
+    return f'# {text}'
+
+
 def from_file_to_yaml(file):
     '''Parse help text in a file and return YAML.'''
 
@@ -104,11 +118,13 @@ def from_file_to_yaml(file):
 
     output = []
 
-    output.append(f'prog: "{prog}"\nhelp: "<Program description here>"\noptions:')
+    head = yaml_source.to_yaml({'prog': prog, 'help': '<Program description here>'})
+    has_options = any(isinstance(obj, help_parser.OptionsWithDescription) for obj in parsed)
+    output.append(head + ('\noptions:' if has_options else '\noptions: []'))
 
     for obj in parsed:
         if isinstance(obj, help_parser.Unparsed):
-            output.append(f"# {obj.text.rstrip()}")
+            output.append(make_comment(obj.text))
         elif isinstance(obj, help_parser.OptionsWithDescription):
             option_dict = {
                 'option_strings': [],
-- 
2.43.0


From d839dc15850d1580b9b8a589663d472f716334b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:35 +0000
Subject: [PATCH 51/63] fix: take a single word as the program name of help
 texts

---
 crazy_complete/help_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/help_parser.py b/crazy_complete/help_parser.py
index 2468585..70a6f4b 100644
--- a/crazy_complete/help_parser.py
+++ b/crazy_complete/help_parser.py
@@ -346,7 +346,7 @@ def parse(stream):
 
 def get_program_name_from_help(string):
     """Extracts the program name from the help string."""
-    m = re.match('usage:[\n\t ]+([^\n\t ]+)', string, re.I)
+    m = re.match('usage:\\s+(\\S+)', string, re.I)
     if m:
         return m[1]
 
-- 
2.43.0


From 5cd1011bd00d0d10d8430d34fafe5af304e181b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:07 +0000
Subject: [PATCH 52/63] fix: convert aliases of argparse subparsers, choices of
 any container, tuples of metavars; never show suppressed helps

---
 crazy_complete/argparse_source.py | 56 +++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/crazy_complete/argparse_source.py b/crazy_complete/argparse_source.py
index ea94089..8fb58ae 100644
--- a/crazy_complete/argparse_source.py
+++ b/crazy_complete/argparse_source.py
@@ -32,6 +32,33 @@ def range_to_complete(r):
     return ('range', start, end, step)
 
 
+def choices_to_complete(choices):
+    '''Convert the choices of an action (any container) to a choices complete format.'''
+
+    if isinstance(choices, range):
+        return range_to_complete(choices)
+
+    if isinstance(choices, dict) and all(isinstance(v, str) for v in choices.values()):
+        return ['choices', choices]
+
+    return ['choices', [c if isinstance(c, (str, int, float)) else str(c) for c in choices]]
+
+
+def get_metavar(action):
+    '''Return the metavar of an action. Use its destination if it isn't set.'''
+
+    if isinstance(action.metavar, tuple):
+        return ' '.join(action.metavar)
+
+    return action.metavar or action.dest
+
+
+def get_help(action):
+    '''Return the help of an action, unless it is suppressed.'''
+
+    return None if action.help == argparse.SUPPRESS else action.help
+
+
 def get_complete(action):
     '''
     Get the `complete` attribute of `action` if it is set.
@@ -65,9 +92,7 @@ def get_complete(action):
             return complete
 
         if action.choices:
-            if isinstance(action.choices, range):
-                return range_to_complete(action.choices)
-            return ['choices', action.choices]
+            return choices_to_complete(action.choices)
 
         return ['none']
 
@@ -121,14 +146,21 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
         if isinstance(action, argparse._SubParsersAction):
             subparsers = OrderedDict()
             for name, subparser in action.choices.items():
-                subparsers[name] = {'parser': subparser, 'help': None}
+                for data in subparsers.values():
+                    if data['parser'] is subparser:
+                        # The name of the subparser comes before its aliases
+                        data['aliases'].append(name)
+                        break
+                else:
+                    subparsers[name] = {'parser': subparser, 'help': None, 'aliases': []}
 
             for subaction in action._get_subactions():
-                subparsers[subaction.dest]['help'] = subaction.help
+                subparsers[subaction.dest]['help'] = get_help(subaction)
 
             subcommands = commandline.add_subcommands()
             for name, data in subparsers.items():
                 subcmd = argumentparser_to_commandline(data['parser'], name, data['help'])
+                subcmd.aliases = data['aliases'] + [a for a in subcmd.aliases if a not in data['aliases']]
                 subcommands.add_commandline_object(subcmd)
         elif not action.option_strings:
             if action.nargs in ('+', '*'):
@@ -142,9 +174,9 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
             positional_number += 1
             commandline.add_positional(
                 positional_number,
-                metavar    = action.metavar or action.dest,
+                metavar    = get_metavar(action),
                 complete   = get_complete(action),
-                help       = action.help,
+                help       = get_help(action),
                 repeatable = is_repeatable,
                 when       = action.get_when()
             )
@@ -152,7 +184,6 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
             complete = get_complete(action)
             optional_arg = False
             metavar = None
-            help = None
 
             if action.nargs == '?':
                 optional_arg = True
@@ -160,16 +191,13 @@ def argumentparser_to_commandline(parser, prog=None, description=None):
                 utils.warn(f'Truncating nargs={action.nargs} of {action}')
 
             if complete:
-                metavar = action.metavar or action.dest
-
-            if action.help != argparse.SUPPRESS:
-                help = action.help
+                metavar = get_metavar(action)
 
             commandline.add_option(
                 action.option_strings,
                 metavar      = metavar,
                 complete     = complete,
-                help         = help,
+                help         = get_help(action),
                 optional_arg = optional_arg,
                 repeatable   = action.get_repeatable(),
                 final        = get_final(action),
@@ -200,7 +228,7 @@ def find_objects_by_type(module, types):
 
     for obj_name in dir(module):
         obj = getattr(module, obj_name)
-        if isinstance(obj, types):
+        if isinstance(obj, types) and not any(obj is o for o in r):
             r.append(obj)
 
     return r
-- 
2.43.0


From f9a6cb6babdef15caf3ef2c1b06de202c1524adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:03 +0000
Subject: [PATCH 53/63] fix: load Python files that have the name of an
 installed module

---
 crazy_complete/file_loader.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/file_loader.py b/crazy_complete/file_loader.py
index 4a23b71..e3e11b9 100644
--- a/crazy_complete/file_loader.py
+++ b/crazy_complete/file_loader.py
@@ -5,7 +5,7 @@
 
 import os
 import sys
-import importlib
+import importlib.util
 import tempfile
 import types
 
@@ -57,4 +57,16 @@ def import_file(file):
     if directory not in sys.path:
         sys.path.append(directory)
 
-    return importlib.import_module(module_name)
+    # The file may have the name of a module that is already known
+    spec = importlib.util.spec_from_file_location(module_name, os.path.join(directory, module_name + '.py'))
+    module = importlib.util.module_from_spec(spec)
+    known_module = sys.modules.get(module_name)
+    sys.modules[module_name] = module
+
+    try:
+        spec.loader.exec_module(module)
+    finally:
+        if known_module is not None:
+            sys.modules[module_name] = known_module
+
+    return module
-- 
2.43.0


From 03062fa5aacd42ccfb4821513f6b187bd3780095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:24 +0000
Subject: [PATCH 54/63] fix: offer longer values of lists and read empty keys
 without errors (Bash)

---
 crazy_complete/bash_helpers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index eda5ecf..40de28c 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -301,12 +301,14 @@ if [[ "${cur_unquoted: -1}" == "$separator" ]]; then
 elif (( ${#remaining_values[@]} )); then
   if array_contains "${having_values[-1]}" "$@"; then
     COMPREPLY+=("$cur_stripped$separator")
-  elif (( ${#having_values[@]} )); then
+  fi
+
+  if (( ${#having_values[@]} )); then
     local cur_last_value=${having_values[-1]}
     cur_stripped="${cur_stripped%"$cur_last_value"}"
 
     for value in "${remaining_values[@]}"; do
-      if [[ "$value" == "$cur_last_value"* ]]; then
+      if [[ "$value" == "$cur_last_value"?* ]]; then
         COMPREPLY+=("$cur_stripped$value")
       fi
     done
@@ -346,6 +348,7 @@ IFS="$sep1" read -r -a having_pairs <<< "$cur"
 
 for pair in "${having_pairs[@]}"; do
   key="${pair%%"$sep2"*}"
+  [[ -n "$key" ]] || continue
   IFS=' ' read -r -a tmp <<< "${excludes[$key]}"
   having_keys+=("${tmp[@]}")
 done
@@ -379,7 +382,7 @@ else
     key="${pair%%"$sep2"*}"
     value="${pair#*"$sep2"}"
     cur="$value"
-    ${funcs[$key]}
+    [[ -n "$key" ]] && ${funcs[$key]}
 
     cur_stripped="${cur_stripped:0:$(( ${#cur_stripped} - ${#value} ))}"
     if [[ -n "$strip_chars" ]]; then
@@ -520,6 +523,7 @@ IFS="$sep1" read -r -a having_pairs <<< "$cur"
 
 for pair in "${having_pairs[@]}"; do
   key="${pair%%"$sep2"*}"
+  [[ -n "$key" ]] || continue
   IFS=' ' read -r -a tmp <<< "${excludes[$key]}"
   having_keys+=("${tmp[@]}")
 done
-- 
2.43.0


From 7debd26279281be9affe1d5feb94bd32a2481245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:24 +0000
Subject: [PATCH 55/63] fix: complete lists with duplicates inside of other
 completers (Fish)

---
 crazy_complete/fish_complete.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index a6b8d94..72a68c4 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -265,6 +265,20 @@ class FishCompleteValueList(FishCompletionCommand):
             complete_list_func = ctxt.helpers.use_function('list')
             super().__init__(ctxt, [complete_list_func, separator, func])
 
+        self.duplicates = duplicates
+
+    def _get_nested(self):
+        # __fish_complete_list completes the whole argument, it can't be used
+        # for completing a part of it
+        list_func = self.ctxt.helpers.use_function('list')
+        return FishCompletionCommand(self.ctxt, [list_func, '-d', *self.args[1:]])
+
+    def get_code(self):
+        return self._get_nested().get_code() if self.duplicates else super().get_code()
+
+    def get_function(self):
+        return self._get_nested().get_function() if self.duplicates else super().get_function()
+
 
 class FishCompleteKeyValueList(FishCompletionCommand):
     '''Used for completing a list of key-value pairs.'''
-- 
2.43.0


From d64fe8863665f76fcca4305ee9a81424c3235be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:24 +0000
Subject: [PATCH 56/63] fix: let key-value lists exclude repeatable keys

---
 crazy_complete/scheme_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/scheme_validator.py b/crazy_complete/scheme_validator.py
index 4dfd53a..bd7ba63 100644
--- a/crazy_complete/scheme_validator.py
+++ b/crazy_complete/scheme_validator.py
@@ -452,12 +452,14 @@ def _check_key_value_list(ctxt, arguments):
         _check_non_empty_string(key, f'{index}: key')
         _check_no_spaces(key, f'{index}: key')
 
-        if key.value in defined_keys:
+        key_name = key.value[1:] if key.value.startswith('*') else key.value
+
+        if key_name in defined_keys:
             cause = f'{index}: {key.value}'
             msg = '%s: Duplicate key' % cause
             raise _error(msg, key)
 
-        defined_keys.add(key.value)
+        defined_keys.add(key_name)
 
         if complete.value is not None:
             _check_complete(ctxt, complete)
-- 
2.43.0


From 692e8be4d6f04ea62899e250e8396046a3c7df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 57/63] fix: read the separators of lists with duplicates
 literally (Fish)

---
 crazy_complete/fish_complete.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crazy_complete/fish_complete.py b/crazy_complete/fish_complete.py
index 72a68c4..c167c15 100644
--- a/crazy_complete/fish_complete.py
+++ b/crazy_complete/fish_complete.py
@@ -265,6 +265,7 @@ class FishCompleteValueList(FishCompletionCommand):
             complete_list_func = ctxt.helpers.use_function('list')
             super().__init__(ctxt, [complete_list_func, separator, func])
 
+        self.separator = separator
         self.duplicates = duplicates
 
     def _get_nested(self):
@@ -273,6 +274,13 @@ class FishCompleteValueList(FishCompletionCommand):
         list_func = self.ctxt.helpers.use_function('list')
         return FishCompletionCommand(self.ctxt, [list_func, '-d', *self.args[1:]])
 
+    def get_args(self):
+        # __fish_complete_list uses the separator as regular expression (sed)
+        if self.duplicates and self.separator in '/.*[]^$\\&"\'':
+            return self._get_nested().get_args()
+
+        return super().get_args()
+
     def get_code(self):
         return self._get_nested().get_code() if self.duplicates else super().get_code()
 
-- 
2.43.0


From 6cda9bd2a865b4d4734eefda34dd49408598eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:18 +0000
Subject: [PATCH 58/63] fix: always define the completion function of the root
 command, omit empty functions (Bash)

---
 crazy_complete/bash.py          | 3 ++-
 crazy_complete/bash_complete.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/bash.py b/crazy_complete/bash.py
index 0458b6c..db90328 100644
--- a/crazy_complete/bash.py
+++ b/crazy_complete/bash.py
@@ -121,7 +121,8 @@ class BashCompletionGenerator:
         # The completion function returns 0 (success) if there was a completion match.
         # This return code is used for dealing with subcommands.
 
-        if not utils.is_worth_a_function(self.commandline):
+        # `complete` always needs the function of the root command
+        if self.commandline.parent is not None and not utils.is_worth_a_function(self.commandline):
             self.result = ''
             return
 
diff --git a/crazy_complete/bash_complete.py b/crazy_complete/bash_complete.py
index 42ae803..e447534 100644
--- a/crazy_complete/bash_complete.py
+++ b/crazy_complete/bash_complete.py
@@ -151,9 +151,12 @@ class BashCompleteCombine(BashCompletionBase):
         code = [self.completion_objects[0].get_code(append=append)]
         for obj in self.completion_objects[1:]:
             code.append(obj.get_code(append=True))
-        return '\n'.join(code)
+        return '\n'.join(filter(None, code))
 
     def get_function(self):
+        if not self.get_code():
+            return 'true'
+
         return self.ctxt.helpers.add_dynamic_func(self.ctxt, self.get_code())
 
 
-- 
2.43.0


From 8e63461c7420771d912ad3d886f50f0da8b15b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:48 +0000
Subject: [PATCH 59/63] fix: write every line of a comment as a comment

---
 crazy_complete/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crazy_complete/output.py b/crazy_complete/output.py
index 9c092bc..f3e1118 100644
--- a/crazy_complete/output.py
+++ b/crazy_complete/output.py
@@ -58,7 +58,8 @@ class Output:
     def add_comments(self):
         '''Add additional comments.'''
         if self.config.comments:
-            self.add('\n'.join(f'# {c}' for c in self.config.comments))
+            lines = '\n'.join(self.config.comments).split('\n')
+            self.add('\n'.join(f'# {line}' for line in lines))
 
     def add_included_files(self):
         '''Add included files.'''
-- 
2.43.0


From 95d586d4e489c35e77896b32482c7317c5b85f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:48 +0000
Subject: [PATCH 60/63] fix: quote the option strings of captured options
 (Fish)

---
 crazy_complete/fish_prepare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crazy_complete/fish_prepare.py b/crazy_complete/fish_prepare.py
index c70de04..c4459bf 100644
--- a/crazy_complete/fish_prepare.py
+++ b/crazy_complete/fish_prepare.py
@@ -64,7 +64,7 @@ def _get_capture_code(commandline, ctxt):
         for option in cmdline.get_options():
             if option.capture is not None:
                 capture_func = ctxt.helpers.use_function('capture_option')
-                opts = ' '.join(option.option_strings)
+                opts = shell.join_quoted(option.option_strings)
                 r.append(f'{capture_func} {option.capture} {opts}')
 
     return '\n'.join(r)
-- 
2.43.0


From fb60a046e6fbdb539fd882df6b1a68e76fd3096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 61/63] fix: capture option values as they are, and those of
 parents with the options of the subcommand (Zsh)

---
 crazy_complete/zsh.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/crazy_complete/zsh.py b/crazy_complete/zsh.py
index e21a489..329bd56 100644
--- a/crazy_complete/zsh.py
+++ b/crazy_complete/zsh.py
@@ -132,19 +132,31 @@ class ZshCompletionFunction:
         for option in self.commandline.options:
             if option.capture:
                 local_vars.append(option.capture)
-                set_cmds.append('IFS=$"\\n" %s=($(%s get_option %s))' % (
-                    option.capture,
-                    self.query.use('get_option'),
-                    shell.join_quoted(option.option_strings)))
+                set_cmds.append(self._generate_capture_command(option))
 
+        # Only here the options of this command are known, too. The variables
+        # are local to the functions of the parents.
+        own_strings = set(s for o in self.commandline.options for s in o.option_strings)
+
+        for parent in self.commandline.get_parents():
+            for option in parent.options:
+                if (option.capture and option.capture not in local_vars and
+                        own_strings.isdisjoint(option.option_strings)):
+                    set_cmds.append(self._generate_capture_command(option))
+
+        r = []
         if local_vars:
-            r  = 'local %s' % ' '.join(f'{s}=()' for s in local_vars)
-            for cmd in set_cmds:
-                r += '\n%s' % cmd
+            r.append('local %s' % ' '.join(f'{s}=()' for s in local_vars))
 
-            return r
+        return '\n'.join(r + set_cmds)
 
-        return ''
+    def _generate_capture_command(self, option):
+        # The final dot keeps empty values at the end.
+        return '%s=("${(@f)$(%s get_option %s; builtin printf .)}"); %s[-1]=()' % (
+            option.capture,
+            self.query.use('get_option'),
+            shell.join_quoted(option.option_strings),
+            option.capture)
 
     def _generate_subcommand_call(self):
         if not self.subcommands:
-- 
2.43.0


From 6fdf3d329e9a14a2fc559969af6ba74bf0912e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 62/63] fix: offer directories when completing files with
 extensions in a relative directory (Zsh)

---
 crazy_complete/zsh_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index 884d2f5..069642f 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -507,8 +507,9 @@ _describe 'charsets' items
 ''')
 
 _PATH_FILES_RELATIVE = ShellFunction('path_files_relative', r'''
-local DIR="$1"; shift
-_path_files -W "$PWD/$DIR" "$@"
+local DIR="$1" dirs=(); shift
+(( $argv[(I)-g] )) && dirs=(-/)
+_path_files -W "$PWD/$DIR" $dirs "$@"
 ''')
 
 # =============================================================================
-- 
2.43.0


From e15723afb1c4b46c9f5a7af30bc306c8e02c4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 63/63] fix: don't print an error message without aplay

---
 crazy_complete/bash_helpers.py | 4 ++--
 crazy_complete/fish_helpers.py | 4 ++--
 crazy_complete/zsh_helpers.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crazy_complete/bash_helpers.py b/crazy_complete/bash_helpers.py
index 40de28c..c2f5e66 100644
--- a/crazy_complete/bash_helpers.py
+++ b/crazy_complete/bash_helpers.py
@@ -792,7 +792,7 @@ while builtin read card; do
   card="${card#card }"
   id="${card%%: *}"
   cards+=("$id")
-done < <(command aplay -l | command grep -Eo '^card [0-9]+: [^,]+')
+done < <(command aplay -l 2>/dev/null | command grep -Eo '^card [0-9]+: [^,]+')
 
 COMPREPLY=($(compgen -W "${cards[*]}" -- "$cur"))
 ''')
@@ -803,7 +803,7 @@ while builtin read card; do
   card="${card#card }"
   id="${card%%: *}"
   devices+=("hw:$id")
-done < <(command aplay -l | command grep -Eo '^card [0-9]+: [^,]+')
+done < <(command aplay -l 2>/dev/null | command grep -Eo '^card [0-9]+: [^,]+')
 
 COMPREPLY=($(compgen -W "${devices[*]}" -- "$cur"))
 ''')
diff --git a/crazy_complete/fish_helpers.py b/crazy_complete/fish_helpers.py
index aa21c16..cb6afc6 100644
--- a/crazy_complete/fish_helpers.py
+++ b/crazy_complete/fish_helpers.py
@@ -1060,7 +1060,7 @@ end
 _ALSA_LIST_CARDS = FishFunction('alsa_list_cards', r'''
 set -l card
 
-for card in (command aplay -l | string match -r '^card [0-9]+: [^,]+')
+for card in (command aplay -l 2>/dev/null | string match -r '^card [0-9]+: [^,]+')
   set card (string replace 'card ' '' $card)
   set -l split (string split ': ' $card)
 
@@ -1073,7 +1073,7 @@ end
 _ALSA_LIST_DEVICES = FishFunction('alsa_list_devices', r'''
 set -l card
 
-for card in (command aplay -l | string match -r '^card [0-9]+: [^,]+')
+for card in (command aplay -l 2>/dev/null | string match -r '^card [0-9]+: [^,]+')
   set card (string replace 'card ' '' $card)
   set -l split (string split ': ' $card)
 
diff --git a/crazy_complete/zsh_helpers.py b/crazy_complete/zsh_helpers.py
index 069642f..3dbcc18 100644
--- a/crazy_complete/zsh_helpers.py
+++ b/crazy_complete/zsh_helpers.py
@@ -526,7 +526,7 @@ done
 
 _ALSA_COMPLETE_CARDS = ShellFunction('alsa_complete_cards', r'''
 local card='' cards=()
-command aplay -l \
+command aplay -l 2>/dev/null \
   | command grep -Eo '^card [0-9]+: [^,]+' \
   | command uniq \
   | while builtin read card; do
@@ -541,7 +541,7 @@ _describe 'ALSA card' cards
 
 _ALSA_COMPLETE_DEVICES = ShellFunction('alsa_complete_devices', r'''
 local card='' id='' name='' devices=()
-command aplay -l \
+command aplay -l 2>/dev/null \
   | command grep -Eo '^card [0-9]+: [^,]+' \
   | command uniq \
   | while builtin read card; do
-- 
2.43.0


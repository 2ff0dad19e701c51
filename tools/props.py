#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json
import sys
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, level='proof', note='', technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': ['crazy_complete/' + f for f in files],
                           'mechanism': [{'name': n, 'where': 'crazy_complete/' + w} for n, w in mech],
                           'observe_at': observe or ['the generated Bash, Fish and Zsh scripts']},
                  _level=level, _note=note, _technique=technique, _na=na))


prop('C01', 'Text from a definition reaches the shells as exactly that literal text',
     'Every text of a definition that is put into a generated Bash, Fish or Zsh script as data (choices, keys, list values, '
     'descriptions, metavars, condition arguments) is read back by that shell as exactly the same text, whatever characters it '
     'contains. No part of it is ever expanded, executed or split, and it never keeps the script from loading or the other '
     'candidates from being offered.',
     ['inputs'], 'every text without NUL, every place of a definition that takes free text, all three shells',
     'The tests use a few dozen benign words; the property ranges over all strings and three quoting grammars.',
     ['shell.py', 'fish_utils.py', 'fish_conditions.py', 'zsh_utils.py', 'zsh_complete.py', 'bash_complete.py', 'fish_complete.py'],
     [('quote / join_quoted', 'shell.py'), ('escape_in_double, make_condition_command', 'fish_conditions.py'),
      ('FishString', 'fish_utils.py'), ('escaping for _arguments, _describe and _values', 'zsh_utils.py')],
     note='Proved for all strings: the quoting functions are inverse to the word lexers of the three shells. Bounded: the lexers and '
          'whole scripts are compared with the installed shells on hostile texts. Trusted: the lexer automata, z3, the pydv engine.')

prop('C02', 'Conversions between definition forms lose and change nothing',
     'Loading a definition (dictionaries, YAML or JSON) and writing it back as dictionaries, YAML or JSON, in any order and any '
     'number of times, yields a definition with the same commands in the same order and the same attributes, for every attribute '
     'value the schema accepts. Generated YAML and JSON are valid and are read back by crazy-complete and by standard parsers as the same data.',
     ['inputs'], 'every valid definition, every text in every field, every chain of conversions',
     'The tests convert a few examples; the property ranges over all attribute values, texts and nesting depths.',
     ['dictionary_source.py', 'yaml_source.py', 'json_source.py', 'extended_yaml_parser.py', 'cli.py', 'utils.py'],
     [('option_to_dictionary, positional_to_dictionary, commandline_to_dictionaries', 'dictionary_source.py'),
      ('option_to_yaml, _dump', 'yaml_source.py'), ('ExtendedYAMLParser', 'extended_yaml_parser.py')],
     ['commandline_to_yaml / commandline_to_json output', 'the CommandLine object'],
     note='Proved per option, positional and command for all attribute values; YAML/JSON text of single values is bounded.')

prop('C03', 'Generating or copying never changes the definition it is given',
     'Generating a script, converting, validating or copying leaves the CommandLine object and the dictionaries it came from exactly '
     'as they were, so generating again, for another shell or with another configuration, gives the same text as from a fresh load. '
     'A copy is equal to its original, changing one never changes the other, and two command lines compare equal only if every '
     'attribute is equal.',
     ['inputs', 'histories'], 'every definition, every attribute, every sequence of generations and copies',
     'The tests generate each definition once per shell from a fresh load.',
     ['cli.py', 'generation.py', 'utils.py', 'shell.py', 'dictionary_source.py', 'compat.py', 'bash.py', 'fish.py', 'zsh.py'],
     [('CommandLine.copy, __eq__', 'cli.py'), ('enhance_commandline', 'generation.py')],
     ['the CommandLine object, the caller\'s dictionaries, the generated text'])

prop('C04', 'Explicit settings win, INHERIT follows the configuration, disabled ones vanish',
     'An attribute of a command or option that is set explicitly (abbreviate_commands, abbreviate_options, inherit_options, '
     'repeatable, long_opt_arg_sep) overrides the configuration, and one left at INHERIT takes exactly the value of the '
     'configuration, for every command at every depth. Disabling hidden, final, groups, repeatable or when removes that feature from '
     'every command, option and positional and changes nothing else; each command line switch of crazy-complete sets exactly its own setting.',
     ['inputs', 'configurations'], 'every combination of attribute values, configuration settings and command line switches',
     'The product of settings is far larger than the tests\' handful.',
     ['generation.py', 'config.py', 'application.py', 'cli.py'],
     [('_apply_config, enhance_commandline', 'generation.py'), ('Config', 'config.py'), ('_get_config_from_options', 'application.py')],
     ['the command line the shell generators work on', 'the generated scripts'])

prop('C05', 'An abbreviation is accepted exactly when it names one command or option',
     'With abbreviations enabled, every prefix of a subcommand or long option that belongs to exactly one of the names in scope is '
     'accepted as that name, and no prefix that could mean another one is. A full name or alias always means itself, even when '
     'it is a prefix of another name; with abbreviations disabled only full names are accepted.',
     ['inputs'], 'every set of names, every prefix',
     'The property quantifies over all sets of names and all their prefixes.',
     ['utils.py', 'bash_parser.py', 'bash_parser_v2.py', 'bash_parser_subcommand_code.py', 'fish_complete.py', 'zsh_complete.py'],
     [('ExtendedAbbreviator / OptionAbbreviator / CommandAbbreviator, get_all_command_variations', 'utils.py')],
     ['which words select a subcommand or option in the generated scripts'])

prop('C06', 'Bash case patterns match exactly the option strings they stand for',
     'Every case pattern that is generated for a set of words or option strings matches each of them, in the requested '
     'form (alone, or followed by =value), and no other word. This holds for any valid option strings: short, long or old style, '
     'sharing prefixes, or containing characters that are special in patterns.',
     ['inputs'], 'every set of words, every word tested against the pattern',
     'A pattern is right only if it is right for every word; the tests look at a few.',
     ['bash_patterns.py', 'bash_utils.py', 'bash_parser_v2.py', 'bash_option_completion.py'],
     [('make_pattern, _build_pattern', 'bash_patterns.py'), ('CasePatterns', 'bash_utils.py')],
     ['the case statements of generated Bash scripts'])

prop('C07', 'Preprocessing keeps exactly the lines whose conditions hold',
     'For every text and every set of defines, preprocessing keeps exactly the lines for which every enclosing #ifdef branch is '
     'active, unchanged and in their order, at any nesting depth, and drops all directives. Unbalanced directives are rejected '
     'with an error and never produce output.',
     ['inputs'], 'every text, every nesting, every set of defines',
     'The property ranges over all nestings and define sets.',
     ['preprocessor.py', 'helpers.py', 'str_utils.py'],
     [('preprocess', 'preprocessor.py'), ('get_code', 'helpers.py')],
     ['the text of helper functions in generated scripts'])

prop('C08', 'Conditions are parsed exactly: well-formed accepted, malformed rejected',
     'A when condition is accepted exactly when it is well-formed (tests joined by && and ||, negated with !, grouped by balanced '
     'parentheses) and every malformed one is rejected with a CrazyError. The parsed condition has exactly the meaning of the '
     'text: the same tests with the same arguments, operators, negations and grouping, in the same order.',
     ['inputs'], 'every condition text',
     'All expressions and all malformed texts cannot be sampled.',
     ['shell_parser.py', 'when.py', 'generation.py'],
     [('ShellLexer, ShellParser.check_syntax', 'shell_parser.py'), ('parse_when, OptionIs, HasOption, PositionalCount', 'when.py')],
     ['parse_when', 'error messages of crazy-complete'])

prop('C09', 'A condition means the same in the Bash, Fish and Zsh script',
     'An option or positional with a when condition is offered by the generated script exactly when the condition is true of the words '
     'typed so far, and all three shells agree. This holds for every test (option_is, has_option, option_match, positional_contains, '
     'positional_count), every combination with !, &&, || and parentheses, and every argument text.',
     ['inputs', 'histories'], 'every condition, every command line, three shells',
     'The meaning is decided by three shell interpreters over all command lines; the tests compare a few outputs.',
     ['bash_when.py', 'zsh_when.py', 'fish_conditions.py', 'when.py', 'fish_complete.py'],
     [('generate_when_conditions', 'bash_when.py'), ('generate_when_conditions', 'zsh_when.py'), ('Conditions', 'fish_conditions.py')],
     ['the candidates offered by the generated scripts'])

prop('C10', 'Translated patterns match the same texts as the original pattern',
     'A glob pattern that is translated to a regular expression or Zsh pattern, and a file extension list that is turned into a '
     'shell pattern, matches exactly the file names the original matches, with every special character treated as the original '
     'pattern says. Patterns that cannot be translated are rejected with an error.',
     ['inputs'], 'every pattern, every file name',
     'A translation is right only if both sides agree on every name.',
     ['pattern.py', 'bash_utils.py', 'zsh_utils.py', 'shell.py'],
     [('bash_glob_to_regex, bash_glob_to_zsh_glob', 'pattern.py'), ('make_file_extension_pattern', 'bash_utils.py')],
     ['file names offered by the generated scripts'])

prop('C11', 'Invalid completers are rejected wherever they are nested, valid ones accepted',
     'A definition is accepted exactly when every completer in it is valid: known command, right number and types of arguments, '
     'known and well-typed options, and commands that may only stand at the top level or alone not nested elsewhere. This holds the same at '
     'the top level and inside combine, list, prefix, key_value_pair and key_value_list at any depth, for options and positionals of every subcommand.',
     ['inputs'], 'every completer, every mutation of it, every nesting',
     'The space of nested completers and of their defects is unbounded.',
     ['scheme_validator.py', 'completion_validator.py', 'generation.py'],
     [('validate', 'scheme_validator.py'), ('CompletionValidator', 'completion_validator.py')],
     ['error messages of crazy-complete'])

prop('C12', 'Bad input ends in a clear error and never damages output files',
     'Whatever the content of the definition file or the command line switches, crazy-complete either succeeds or prints an error message on stderr and '
     'exits with a non-zero status, never with a Python traceback (unless --debug asks for it). An existing output file is only replaced, completely, by a '
     'successful run, and nothing is written when an error occurs.',
     ['inputs', 'configurations'], 'every definition file, every switch combination',
     'Arbitrary inputs cannot be enumerated by tests.',
     ['application.py', 'errors.py', 'yaml_source.py', 'json_source.py', 'extended_yaml_parser.py', 'dictionary_source.py', 'scheme_validator.py'],
     [('generate, write_string_to_file', 'application.py'), ('load_from_file', 'yaml_source.py'), ('validate', 'scheme_validator.py')],
     ['exit status, stderr and the output file of the crazy-complete command'])

prop('C13', 'Positionals are completed by their own completer at their own position',
     'The n-th non-option word of a command is completed by the positional with number n (by the repeatable positional for all words '
     'from its number on, and by the subcommand names at the position after the last positional), in every shell and at every '
     'subcommand depth, independent of the order in which positionals are defined and of the options between the words. Definitions whose '
     'numbering is not usable (gaps, duplicates, a repeatable positional that is not last) are rejected or completed consistently.',
     ['inputs', 'histories'], 'every definition, every command line',
     'Positions combine with options, depth and repeatability in unboundedly many ways.',
     ['cli.py', 'utils.py', 'bash_positionals_completion.py', 'bash_parser_v2.py', 'fish_complete.py', 'zsh_complete.py', 'completion_validator.py'],
     [('get_positional_index, get_highest_positional_num', 'cli.py'), ('positional completion', 'bash_positionals_completion.py')],
     ['the candidates offered by the generated scripts'])

prop('C14', 'Options in scope are found, inherited and overridden by option strings',
     'The options in scope of a command are its own options and, when options are inherited, those of its parents, except that an option '
     'with the same option strings in a deeper command replaces the one of its parent; without inheritance only its own options '
     'are in scope. Every option in scope is offered, and completed with its own completer, regardless of the order of its option strings and of '
     'how many definitions share the same strings under different conditions.',
     ['inputs', 'histories'], 'every command tree, every option set, every depth',
     'Scope depends on the whole command tree.',
     ['cli.py', 'utils.py', 'bash_complete.py', 'bash_parser_v2.py', 'fish_complete.py', 'zsh_complete.py'],
     [('OptionsGetter, get_options', 'cli.py')], ['the candidates offered by the generated scripts'])

prop('C15', 'Repeated, conflicting, final and hidden options are suppressed, nothing else is',
     'An option is suggested unless it was already given and is not repeatable, another option of one of its groups was given, a final option '
     'was given, or it is hidden; hidden options are still completed once typed. Conflicts follow the groups exactly, for options with several '
     'groups, several option strings and at every subcommand depth, and giving one option never suppresses an unrelated one.',
     ['inputs', 'histories'], 'every option set, every command line',
     'Interactions of groups, repeatability and finality over all command lines cannot be sampled by hand.',
     ['cli.py', 'bash_option_strings_completion.py', 'bash_complete.py', 'fish_complete.py', 'zsh_complete.py'],
     [('get_conflicting_options', 'cli.py'), ('option suggestion', 'bash_option_strings_completion.py')],
     ['the candidates offered by the generated scripts'])

prop('C17', 'Generated function and variable names are valid and never clash',
     'Every function and variable name in a generated script is a valid identifier of that shell, and different commands, options, '
     'completers and helpers get different names, whatever characters their names contain. So the completion code of one command or option is never '
     'replaced by that of another.',
     ['inputs'], 'every set of command names, option strings and metavars',
     'Clashes appear only for particular pairs of names.',
     ['helpers.py', 'shell.py', 'bash_utils.py', 'fish_utils.py', 'zsh_utils.py'],
     [('make_completion_funcname, get_dynamic_funcname', 'helpers.py'), ('make_identifier', 'shell.py'),
      ('VariableManager', 'bash_utils.py')], ['the generated scripts'])

prop('C18', 'Scripts contain every helper function they call, renamed consistently',
     'A generated script defines every helper function it calls, directly or through other helpers, with the defines it was '
     'requested with, and no helper is defined twice. All names carry the configured function prefix, and stripping '
     'comments or renaming never changes what a helper does.',
     ['inputs'], 'every set of completers, shells, prefixes and settings',
     'The set of required helpers depends on all combinations of completers and settings.',
     ['helpers.py', 'bash_helpers.py', 'fish_helpers.py', 'zsh_helpers.py', 'str_utils.py'],
     [('use_function, get_used_functions_code', 'helpers.py'), ('strip_comments', 'str_utils.py')], ['the generated scripts'])

prop('C19', 'Defines are substituted exactly where they are referenced',
     'Every string of a definition that equals the name of a define, at any depth and in any document, is replaced by exactly the '
     'defined value, and everything else (mapping keys, strings that only contain a name, numbers, the defined values themselves) stays as it is. The '
     'definitions document is never taken for a command, its position does not matter, and YAML, JSON and dictionary definitions behave the same.',
     ['inputs'], 'every set of defines, every place of reference',
     'References may appear anywhere in a definition and names may look alike.',
     ['dictionary_source.py', 'yaml_source.py', 'json_source.py', 'scheme_validator.py'],
     [('replace_defines_in_documents', 'dictionary_source.py'), ('replace_defines_in_documents', 'yaml_source.py')],
     ['the loaded CommandLine object'])

prop('C20', 'Help text is parsed without losing options, and never fails',
     'Parsing any help text terminates without an exception, and every recognised option line yields all its option strings, its metavar and its '
     'whole description; text that is not an option is kept as unparsed, so no part of the help text is lost. The YAML written '
     'from it is a valid definition that loads back with exactly those options.',
     ['inputs'], 'every text', 'Real help output varies without limit.',
     ['help_parser.py', 'help_converter.py', 'string_stream.py'],
     [('HelpParser / OptionParser', 'help_parser.py'), ('from_text', 'help_converter.py')],
     ['the YAML produced by --input-type=help'])

prop('C21', 'Scripts load cleanly and offer exactly the declared candidates',
     'For every valid definition and configuration the generated Bash, Fish and Zsh scripts are free of syntax errors, and completing '
     'a value offers exactly the candidates its completer declares, filtered by what is typed: choices, ranges, value '
     'lists without the values already given, keys and their values, prefixes, and combinations and lists of these, files and directories with '
     'their options, commands, the output of functions, and system data. A command that wraps another one also offers the candidates of that one. Completing produces no error message.',
     ['inputs', 'histories'], 'every definition, every configuration, every command line',
     'Combinations of completers, settings and typed words are unbounded.',
     ['bash.py', 'fish.py', 'zsh.py', 'bash_complete.py', 'fish_complete.py', 'zsh_complete.py', 'bash_helpers.py', 'fish_helpers.py', 'zsh_helpers.py'],
     [('completion commands', 'bash_complete.py'), ('completion commands', 'fish_complete.py'), ('completion commands', 'zsh_complete.py')],
     ['the candidates offered by the generated scripts'])

prop('C22', 'Option arguments are recognised in exactly the configured forms',
     'A required argument of an option is completed after a space and after =, as long_opt_arg_sep allows, and directly after a '
     'short option; an optional argument is only completed when attached, so the next word is a new argument. The argument of an option is never '
     'counted as a positional, and a word that looks like an option after -- is.',
     ['inputs', 'histories'], 'every option, every form, every command line, the shells for which the setting is documented as implemented',
     'The word splitting rules interact with positions, stacking and subcommands.',
     ['bash_parser.py', 'bash_parser_v2.py', 'bash_option_completion.py', 'fish_complete.py', 'zsh_complete.py', 'generation.py'],
     [('option parsing code', 'bash_parser_v2.py'), ('_arguments specs', 'zsh_utils.py')], ['the candidates offered by the generated scripts'])

prop('C23', 'Argparse parsers are converted faithfully',
     'For every argparse.ArgumentParser the converted command line has the same commands with aliases, the same options with all option strings, '
     'the same positionals in the same order, and the same choices, help, metavars, mutually exclusive groups and argument '
     'requirements (none, optional or required, repeatable). Nothing is added, and what the parser suppresses is hidden.',
     ['inputs'], 'every parser built from documented argparse features',
     'Parsers combine actions, nargs, groups and subparsers freely.',
     ['argparse_source.py', 'argparse_mod.py'],
     [('ArgumentParser_to_CommandLine', 'argparse_source.py')], ['the converted CommandLine object'])

prop('C24', 'Captured variables hold exactly the values given to their option',
     'For every option with `capture`, the functions that are called for a completion see an array variable of that name with one element for each '
     'occurrence of the option before the word being completed, in their order: exactly the value that was given, in any form (next word, after =, '
     'directly after a short option), whatever characters it has. Without an occurrence it is empty. This holds in all three shells, for every option string, in every subcommand.',
     ['inputs', 'histories'], 'every set of options and subcommands, every command line',
     'Combinations of option strings, forms, values and subcommands are unbounded.',
     ['bash.py', 'bash_parser_v2.py', 'fish_prepare.py', 'fish_helpers.py', 'zsh.py', 'zsh_helpers.py'],
     [('capture code', 'bash_parser_v2.py'), ('capture code', 'fish_prepare.py'), ('_generate_option_capture', 'zsh.py')], ['the variables seen by completion functions'])

prop('C25', 'Every switch sets exactly what it names; comments and files are kept apart',
     'Each switch of the command line and each setter of the configuration sets exactly the setting it names to the value given, rejects values that are invalid, and leaves all '
     'others alone; two configurations share nothing. Comments appear in the script as comments, whatever text they contain, included files appear as they are, both in the '
     'given order; the modeline and the #compdef line appear exactly when enabled; and none of these changes any other code of the script.',
     ['inputs', 'configurations'], 'every combination of switches and settings, every comment and included file',
     'Combinations of switches and texts are unbounded.',
     ['application.py', 'config.py', 'output.py', 'bash.py', 'fish.py', 'zsh.py'],
     [('_get_config_from_options', 'application.py'), ('Config', 'config.py'), ('Output', 'output.py')], ['the configuration object and the generated scripts'])


def describe(id):
    """What is proved, what is bounded and what is trusted, from the check itself"""
    import importlib
    sys.path.insert(0, HERE)
    m = importlib.import_module('checks.' + id.lower())
    words = lambda fs: ', '.join(f.__name__.strip('_').replace('_', ' ') for f in fs)
    return 'Contracts proved: %s. Bounded stand-ins, not counted as proved: %s. Trusted: %s.' % (
        words(m.CONTRACTS), words(getattr(m, 'BOUNDED', [])) or 'none', '; '.join(getattr(m, 'TRUSTED', [])))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=True) + '\n')
    checks, na = [], []
    for p in P:
        if p['_na']:
            na.append({'property': p['id'], 'reason': p['_na']})
            continue
        if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
            na.append({'property': p['id'], 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3-vt run.py %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt run.py %s' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['_technique'] or 'contracts on the real functions, verification conditions discharged by z3 (pydv); '
                                            'bounded stand-ins against real shells / independent oracles',
            'level': p['_level'], 'level_note': p['_note'] or describe(p['id'])})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
                   'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified sources', 'source_commits': []},
                   'checks': checks, 'not_applicable': na,
                   'notes': 'generated by tools/props.py; see DESIGN.md'}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()

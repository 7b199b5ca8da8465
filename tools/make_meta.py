#!/opt/venv/bin/python
""" Writes properties.jsonl and MANIFEST.json from the table below.

Run from anywhere: /opt/venv/bin/python tools/make_meta.py.  A property is
claimed when checks/cNN.py exists; it is left out altogether otherwise.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))

A = 'forecaster/accounts/'
L = 'forecaster/ledger/'
F = 'forecaster/forecast/'
S = 'forecaster/strategy/'
C = 'forecaster/canada/'
U = 'forecaster/utility/'


def prop(pid, title, statement, over, text, tests, files, mechanism,
         observe, technique, trust, state=()):
    return dict(
        id=pid, title=title, statement=statement, over=over, text=text,
        tests=tests, files=files, mechanism=mechanism, observe=observe,
        technique=technique, trust=trust, state=state)


PROPS = [
    prop(
        'C01', 'Account balances follow from the recorded transactions',
        "In every year, an account's balance at any time and its opening "
        "balance next year equal its opening balance and every recorded "
        "transaction, each grown at the account's rate for that year from "
        "when it happens; returns are the remainder, so that closing balance "
        "= opening balance + transactions + returns. This holds whatever the "
        "order in which transactions were recorded, replaced or deleted, "
        "whatever was read in between, and for hypothetical transactions, "
        "which leave the account unchanged. Inflows, outflows and the "
        "account's mapping, counting and history views all agree with the "
        "transactions recorded.",
        ['inputs', 'histories'],
        'every rate (constant, table or function of the year), compounding '
        'frequency, precision, account class and every interleaving of '
        'transaction edits, reads and new years, over 1-6 years',
        'tests/test_accounts checks single values after one or two '
        'transactions; it never interleaves reads (which fill caches) with '
        'edits over several years',
        [A + 'base.py', A + 'link.py', L + 'base.py',
         L + 'recorded_property.py'],
        [('transactions and their cache invalidation',
          A + 'base.py Account.add_transaction'),
         ('growth of opening balance and transactions',
          A + 'base.py Account.balance_at_time, returns, next_year'),
         ('cached and recorded properties', L + 'recorded_property.py')],
        ['balance', 'balance_at_time()', 'returns', 'balance_history',
         'inflows()', 'outflows()', 'mapping methods'],
        'runtime monitor: replay oracle over random transaction histories',
        'The oracle recomputes each balance from the recorded transactions '
        'with closed-form growth.',
        [('transactions', 'timing to amount for the current year',
          A + 'base.py'),
         ('balance', 'opening balance of each year', A + 'base.py')]),
    prop(
        'C02', 'Growth, discounting and time-to-value are mutually inverse',
        "The growth factor over a period is that of the stated nominal rate "
        "and compounding frequency, growth over adjacent periods multiplies, "
        "and present and future value invert each other. The time at which "
        "an account is said to reach a value is a time at which it does, "
        "no earlier one exists within the same schedule of transactions, and "
        "an account is said never to reach a value only if it does not.",
        ['inputs'],
        'every rate (negative, zero and positive), frequency (numeric and '
        'coded, discrete and continuous), horizon, schedule of transactions '
        'and target value',
        'tests check a few hand-computed values at fixed rates; the inverse '
        'and first-crossing claims quantify over all schedules',
        [A + 'util.py', A + 'base.py', U + 'timing.py'],
        [('accumulation and its inverses',
          A + 'util.py accumulation_function, '
          'accumulation_function_inverse, value_at_time, time_to_value'),
         ('crossing search', A + 'base.py Account.time_to_balance'),
         ('frequency conversion', U + 'timing.py / ' + A + 'base.py nper')],
        ['accumulation_function()', 'time_to_balance()', 'nper'],
        'runtime monitor: algebraic-law and first-crossing oracle',
        'Crossings are searched for on a grid between transactions, so an '
        'undetected earlier crossing narrower than the grid would be missed.'),
    prop(
        'C03', 'Past years never change and records stay in lockstep',
        "Once a year is over, what a ledger (person, account, tax schedule, "
        "forecast) recorded about it never changes again, whatever is "
        "recorded, deleted, cleared or changed in later years. Every "
        "history covers exactly the years from the ledger's first to its "
        "current year, and a recorded value reads the same directly and "
        "through its history. Values supplied by the user take precedence "
        "in the years for which they are supplied and the user's own inputs "
        "are never altered.",
        ['histories', 'inputs'],
        'every sequence of reads, writes, deletions, cache clearings and '
        'years on ledgers with any mix of recorded properties and inputs, '
        'and every year of random household forecasts',
        'tests exercise each descriptor in isolation for two years; the '
        'property ranges over all later operations, in whole forecasts',
        [L + 'base.py', L + 'recorded_property.py', F + 'base.py'],
        [('recorded properties', L + 'recorded_property.py'),
         ('histories and year advance', L + 'base.py Ledger.next_year')],
        ['*_history', 'recorded properties', 'inputs'],
        'runtime monitor: model-based history oracle and yearly photographs',
        'The model of a recorded property is the documented one: cached for '
        'the current year, frozen when the year ends.'),
    prop(
        'C04', 'Permitted flows respect balances, limits and timings',
        "The largest and smallest inflows and outflows an account permits "
        "lie at the requested times, in the requested proportions, have the "
        "right sign and never exceed the amount asked for or the account's "
        "own limits net of what is already recorded or hypothesised. "
        "Recording a largest outflow never overdraws the account, and leaves "
        "it at its balance limit unless another limit binds; transactions "
        "to a target balance reach that balance. Asking never changes the "
        "account or the caller's data.",
        ['inputs', 'histories'],
        'every account, schedule of recorded and hypothetical transactions, '
        'timing, transaction limit and balance limit',
        'tests use a handful of timings on accounts with no or one '
        'transaction',
        [A + 'base.py', A + 'debt.py'],
        [('flow limits',
          A + 'base.py Account.max_inflows/max_outflows/min_inflows/'
          'min_outflows'),
         ('transactions to a balance',
          A + 'base.py Account.transactions_to_balance')],
        ['max_inflows()', 'min_inflows()', 'max_outflows()',
         'min_outflows()', 'transactions_to_balance()'],
        'runtime monitor: limit oracle, then recording the promised flows',
        'Rates are non-negative where a balance limit must bind at year-end '
        'only.'),
    prop(
        'C05', 'Debts take the payments due and are never overpaid',
        "A debt requires its minimum payment each year until repaid and "
        "accepts at most that plus the accelerated payment, in both cases "
        "net of payments already made and never more than is owing; "
        "payments up to the most accepted never turn the debt into an asset, "
        "and a debt that is paid the most it accepts, without limit, is "
        "repaid by year-end. A debt is a negative balance whichever sign was "
        "given, and permits no borrowing.",
        ['inputs', 'histories'],
        'every balance, rate, frequency, minimum and accelerated payment, '
        'timing and partial-payment history until repayment',
        'tests fix one debt and one year',
        [A + 'debt.py', A + 'base.py'],
        [('payment limits',
          A + 'debt.py Debt.min_inflow_limit, max_inflow_limit'),
         ('payoff', A + 'debt.py Debt.max_inflows')],
        ['min_inflows()', 'max_inflows()', 'balance', 'balance_history'],
        'runtime monitor: repayment-history oracle',
        'Rates are non-negative (a debt with a negative rate is outside the '
        'code base).'),
    prop(
        'C06', 'Limits shared between linked accounts bind the whole group',
        "Accounts linked under the same owner and token share one limit: "
        "what any of them permits is the shared limit net of the recorded "
        "or hypothesised flows of all of them, so that no order of filling "
        "them exceeds the limit and filling all of them exhausts it. "
        "Links with different owners, tokens or kinds of flow never affect "
        "one another, and changes to the shared limit are seen at once by "
        "every member.",
        ['inputs', 'histories'],
        'every group of accounts, assignment of owners, tokens and limit '
        'kinds, and order of recording transactions',
        'tests link two or three accounts and check one query',
        [A + 'link.py', A + 'linked_limit.py'],
        [('link registry', A + 'link.py AccountLink'),
         ('shared limits', A + 'linked_limit.py LinkedLimitAccount')],
        ['max_inflows()', 'min_inflows()', 'max_outflows()',
         'min_outflows()', 'AccountLink.data', 'AccountLink.group'],
        'runtime monitor: whole-group conservation oracle',
        'Each link in use has a limit set.'),
    prop(
        'C07', 'Contribution room follows the statutory rules and is shared',
        "Each year's RRSP room is last year's unused room plus the share of "
        "last year's income up to the statutory (or inflated) cap while "
        "below the age limit, and each year's TFSA room is last year's "
        "unused room plus last year's withdrawals plus the year's accrual "
        "from age 18; initial TFSA room that was not given is inferred from "
        "the owner's birth year. Room given by the user takes precedence, "
        "accounts of one contributor and token share one room whatever the "
        "order in which they advance, and room is the most that can be "
        "contributed.",
        ['inputs', 'histories'],
        'every set of registered accounts of one or two people, history of '
        'contributions, withdrawals and advances, and form of inflation',
        'tests check one or two years of one account',
        [C + 'accounts/registered_account.py', C + 'accounts/rrsp.py',
         C + 'accounts/tfsa.py', C + 'constants.py'],
        [('room accrual',
          C + 'accounts/rrsp.py, tfsa.py next_contribution_room'),
         ('shared records',
          C + 'accounts/registered_account.py')],
        ['contribution_room', 'contribution_room_history', 'max_inflows()'],
        'runtime monitor: reference contribution-room ledger',
        'TFSA accrual beyond the statutory table is a listed known finding.'),
    prop(
        'C08', 'RRSPs convert to RRIFs with minimum withdrawals and withholding',
        "An RRSP becomes a RRIF in the chosen year and no later than the "
        "statutory age; from the year it is a RRIF its minimum withdrawal is "
        "the statutory (or, when young, computed) fraction of its opening "
        "balance, it accepts no contributions and its minimum outflow is "
        "that minimum net of withdrawals made. Withdrawals are taxable, "
        "contributions are deductible, and tax is withheld on withdrawals at "
        "the rate for the amount withdrawn (inflated from the base year), "
        "except on a RRIF's minimum withdrawal.",
        ['inputs', 'histories'],
        'every owner age, conversion year, history of contributions and '
        'withdrawals and form of inflation over 1-15 years',
        'tests check particular ages and single withdrawals',
        [C + 'accounts/rrsp.py', C + 'constants.py'],
        [('minimum withdrawal', C + 'accounts/rrsp.py'),
         ('withholding', C + 'accounts/rrsp.py RRSP.tax_withheld'),
         ('conversion', C + 'accounts/rrsp.py RRSP.convert_to_rrif')],
        ['rrif_conversion_year', 'min_outflow_limit', 'tax_withheld',
         'taxable_income', 'tax_deduction'],
        'runtime monitor: reference registered-plan rules, year by year',
        'The reference encodes the rules as documented in the module.'),
    prop(
        'C09', 'Adjusted cost base and capital gains follow chronology',
        "Each year's adjusted cost base and capital gain of a taxable "
        "account are those obtained by applying its transactions in order of "
        "time, whatever the order in which they were recorded, replaced or "
        "deleted and whatever was read in between; half of the gain is "
        "taxable, and a principal residence is never taxed. Cost bases and "
        "gains entered by the user take precedence, and over the account's "
        "life gains plus unrealised growth equal the money made.",
        ['inputs', 'histories'],
        'every rate, opening cost base and trading history over 1-8 years',
        'tests check a few two-transaction years recorded in order',
        [C + 'accounts/taxable_account.py',
         C + 'accounts/principle_residence.py'],
        [('cost base and gains',
          C + 'accounts/taxable_account.py TaxableAccount')],
        ['acb', 'acb_history', 'capital_gain', 'taxable_income'],
        'runtime monitor: chronological re-computation and conservation',
        'No withdrawals from a zero balance.'),
    prop(
        'C10', 'A tax schedule taxes each slice of income at its bracket rate',
        "For any year, tax is the integral of the year's marginal rates over "
        "taxable income net of deductions, less credits at the credit rate, "
        "and never negative; brackets, deductions and accumulated amounts "
        "for years without a schedule are those of the nearest year adjusted "
        "for inflation, rates being unadjusted. The marginal bracket and rate "
        "are those of the last dollar of income. Tax does not fall as income "
        "rises, nor does it rise by more than the top rate of the increase, "
        "and answers do not depend on which years were asked about before or "
        "on what the caller does with the arguments afterwards.",
        ['inputs', 'histories'],
        'every schedule, income, deduction, credit, form of inflation and '
        'order of years asked about',
        'tests evaluate a fixed three-bracket schedule in two or three years',
        ['forecaster/tax.py', U + 'inflation.py'],
        [('bracket extension', 'forecaster/tax.py Tax.tax_brackets'),
         ('accumulation', 'forecaster/tax.py Tax.accum'),
         ('assessment', 'forecaster/tax.py Tax.__call__')],
        ['Tax()', 'tax_brackets()', 'accum()', 'marginal_bracket()',
         'marginal_rate()'],
        'runtime monitor: independent integral of the schedule, metamorphic',
        'Finite incomes up to 1e7.'),
    prop(
        'C11', 'Tax on a group is the sum of individual assessments',
        "The tax of any collection of people is the sum of the tax each "
        "owes on their own income, deductions and credits, including those "
        "of their accounts and any given for them in particular, for the "
        "current year and every past year. Every person is assessed once, "
        "couples are assessed together when both spouses are present, and "
        "the collection is never altered.",
        ['inputs', 'histories'],
        'every group of 1-4 people, marriages, accounts, collection type '
        'and extra deductions and credits, over 1-4 years',
        'tests use one fixed couple in one year',
        ['forecaster/tax.py', 'forecaster/person.py'],
        [('dispatch over people', 'forecaster/tax.py Tax.__call__'),
         ('couples', 'forecaster/tax.py Tax.tax_spouses')],
        ['Tax(people, year)'],
        'runtime monitor: sum-of-individuals oracle over random families',
        'Individual liabilities use the reference integral of C10.'),
    prop(
        'C12', 'Several jurisdictions and Canadian credits add up correctly',
        "Tax owed to several jurisdictions is the sum of what each levies "
        "with its own deductions and credits, and combined brackets and "
        "marginal rates are those of the sum. Canadian tax is federal plus "
        "provincial tax, with the pension credit on registered income up to "
        "its cap and the spousal credit given to one spouse for the "
        "other's shortfall below the spousal amount, in the current and in "
        "every past year.",
        ['inputs', 'histories'],
        'every combination of 2-3 schedules; every pair of federal and '
        'provincial schedules, family, incomes and retirement accounts over '
        '1-4 years',
        'tests use one province, one couple and one year',
        ['forecaster/tax.py', C + 'tax.py', C + 'constants.py'],
        [('jurisdictions', 'forecaster/tax.py TaxMulti'),
         ('credits', C + 'tax.py TaxCanadaJurisdiction')],
        ['TaxMulti()', 'TaxCanada()'],
        'runtime monitor: per-jurisdiction reference assessment',
        'Extra deductions and credits are addressed as documented.'),
]

EXTRA = os.path.join(HERE, 'tools', 'meta_extra.py')
if os.path.exists(EXTRA):
    with open(EXTRA) as handle:
        exec(compile(handle.read(), EXTRA, 'exec'))  # appends to PROPS

NOT_APPLICABLE = []


def main():
    rows, checks = [], []
    for p in PROPS:
        low = p['id'].lower()
        if not os.path.exists(os.path.join(HERE, 'checks', low + '.py')):
            continue
        assert len(p['title']) <= 80, p['title']
        anchors = {
            'files': p['files'],
            'mechanism': [
                {'name': n, 'where': w} for n, w in p['mechanism']],
            'observe_at': p['observe'], 'hook_needed': None}
        if p['state']:
            anchors['state'] = [
                {'name': n, 'meaning': m, 'where': w}
                for n, m, w in p['state']]
        for name in p['files']:
            assert os.path.exists('/repo/' + name), name
        rows.append({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['tests'], 'anchors': anchors})
        cmd = '/opt/venv/bin/python -W ignore run.py %s --tier ' % p['id']
        checks.append({
            'property': p['id'], 'quick_cmd': cmd + 'quick',
            'thorough_cmd': cmd + 'thorough', 'technique': p['technique'],
            'level': 'exploration',
            'level_note': 'Held on every case explored (counts in the '
            'evidence file); nothing is claimed beyond them. ' + p['trust']})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for row in rows:
            out.write(json.dumps(row) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
        json.dump({
            'version': 1,
            'setup_cmd': '/opt/venv/bin/python -W ignore -c '
                         '"import vmon.core"',
            'checks': checks, 'not_applicable': NOT_APPLICABLE,
            'notes': 'Pure Python: nothing is built; every check imports '
                     'forecaster from /repo (or $VERIF_REPO). No hooks are '
                     'needed in /repo: monitors observe the public API.'},
            out, indent=1)
        out.write('\n')
    print(len(rows), 'properties')


main()

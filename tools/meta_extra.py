# Appended to PROPS by make_meta.py.
T = S + 'transaction/'
PROPS += [
    prop(
        'C13', 'Allocations conserve money, keep to limits, leave none idle',
        "When money is allocated along a priority tree of accounts, no "
        "account receives a flow in the wrong direction, more than its own "
        "limit or, together with the accounts it shares a limit with, more "
        "than what they share; no node passes more than its own limit; and "
        "no more is allocated than is available (or than least flows "
        "demand, for withdrawals). Least flows are met as far as the money "
        "allows. As much is allocated as accounts and nodes permit: no "
        "account in the tree still has room while money is left, however "
        "accounts share limits and wherever they occur in the tree.",
        ['inputs'],
        'every priority tree (ordered and weighted nodes, nested, with '
        'limits, repeated accounts), every sharing of limits between '
        'accounts and every amount in either direction',
        'tests use a handful of small trees; conservation and '
        'non-improvability are claims about all trees and limits',
        [T + 'base.py', T + 'graph.py', T + 'node.py', T + 'util.py'],
        [('flow graph', T + 'base.py TransactionTraversal._add_node_*'),
         ('minimum-cost flows', T + 'graph.py'),
         ('limits', T + 'base.py TransactionTraversal._embed_limit'),
         ('groups', T + 'util.py, ' + A + 'link.py')],
        ['TransactionTraversal.__call__()'],
        'runtime monitor: conservation and maximum-flow oracle',
        'The maximum flow is computed independently (vmon/trees.py). Groups '
        'are compared on their total where no member can use all they share.'),
    prop(
        'C14', 'Priority trees split money by order and weight',
        "Along a priority tree, least flows are met first, in order of "
        "priority; then each child of an ordered node receives all it can "
        "take before the next receives any, and the children of a weighted "
        "node receive amounts proportionate to their weights, with what a "
        "child cannot take being shared by its siblings in proportion to "
        "theirs. Weighted or ordered accounts that share a limit share it "
        "in proportion to their weights, or in order. Each account's flows "
        "are spread over time as the available money is, allocating twice "
        "gives the same answer, and the accounts and the caller's data are "
        "left as they were.",
        ['inputs'],
        'every tree of up to four levels, with and without node limits, '
        'minimums and an explicit total, over stand-in and real accounts '
        'and debts, in both directions',
        'tests compare a dozen trees with hand-computed flows',
        [T + 'base.py', T + 'graph.py', T + 'node.py', A + 'base.py'],
        [('ordered nodes', T + 'base.py _add_node_ordered'),
         ('weighted nodes', T + 'base.py _add_node_weighted, '
          '_balance_weighted_flows'),
         ('spreading over time', T + 'base.py __call__')],
        ['TransactionTraversal.__call__()'],
        'runtime monitor: independent top-down split as the oracle',
        'Limits shared across nodes are the subject of C13 instead.'),
    prop(
        'C15', 'Transaction strategies rank and weight accounts as asked',
        "A transaction strategy serves account types in the order, or in "
        "proportion to the weights, that it was given; an account is "
        "ranked by its own class name or else by its nearest base class "
        "that has a weight, and receives nothing if there is none; accounts "
        "of the same rank share equally; debts of one rank are repaid in "
        "the order of the debt strategy (smallest balance, or highest "
        "rate, first); debts at or above the high-interest threshold are "
        "repaid before anything else; debts that are repaid receive "
        "nothing. This holds for any collection of accounts, in either "
        "direction, in every year.",
        ['inputs', 'histories'],
        'every mix of 1-6 accounts and debts of several classes, weights, '
        'strategy, debt strategy, threshold and amounts over 1-3 years',
        'tests use a few fixed mixes of accounts and no multi-year history',
        [T + 'strategy.py', T + 'base.py', S + 'debt_payment'],
        [('priorities from weights', T + 'strategy.py TransactionStrategy'),
         ('debt strategies', S + 'debt_payment')],
        ['TransactionStrategy.__call__()'],
        'runtime monitor: the split of C14 along an independently built tree',
        'Weights name debts only as Debt. No two debts tie.'),
    prop(
        'C16', 'Debts are repaid in the order of the debt payment strategy',
        "A debt payment strategy first makes minimum payments in order of "
        "priority, then pays each debt as much as it takes in that order: "
        "smallest balance first (Snowball) or highest rate first "
        "(Avalanche). It never pays more than is available, never more than "
        "a debt accepts and never overpays a debt; payments are made when "
        "money is available, or at the debt's default times when a single "
        "amount is given.",
        ['inputs', 'histories'],
        'every set of 1-5 debts with their rates, balances, minimum and '
        'accelerated payments and timings, amounts of money, over 1-8 '
        'years until repaid',
        'tests use three fixed debts in one year',
        [S + 'debt_payment', A + 'debt.py'],
        [('strategies', S + 'debt_payment'),
         ('payments accepted', A + 'debt.py Debt.min_inflows, max_inflows')],
        ['DebtPaymentStrategy.__call__()', 'Debt.balance'],
        'runtime monitor: independent repayment calculation each year',
        'Debts with equal balances are not compared one by one.'),
    prop(
        'C17', 'Sub-forecasts move money by double entry, when it is there',
        "Whenever a sub-forecast moves money, what one side gives the other "
        "side receives at the same time, nothing else changes, and the move "
        "is on its own record, this year and in history. A move keeps its "
        "time if the giver then has the money and keeps having it without "
        "it; otherwise, unless timing is strict, it is put off to the first "
        "time from which the money is there (at its own time if it never "
        "is), and money in a growing account is not asked for later than "
        "necessary. Undoing removes exactly that sub-forecast's moves of "
        "this year, and no one else's; calling one again in a year has the "
        "same effect as calling it once.",
        ['histories', 'inputs'],
        'every interleaving of 4-14 moves, undoings, years and outside '
        'transactions by two sub-forecasts over 2-6 accounts, debts, '
        'mappings and the outside world; calls, repeats and undoings of the '
        'five sub-forecasts of random households; whole forecasts',
        'tests move one amount between two parties at a time',
        [F + 'subforecast.py', F + 'income.py', F + 'living_expenses.py',
         F + 'saving.py', F + 'withdrawal.py', F + 'tax.py'],
        [('moving', F + 'subforecast.py SubForecast.add_transaction'),
         ('putting off', F + 'subforecast.py SubForecast._shift_when'),
         ('undoing', F + 'subforecast.py undo_transactions')],
        ['SubForecast.add_transaction()', 'SubForecast.transactions',
         'SubForecast.transactions_history', 'Account.transactions'],
        'runtime monitor: shadow ledger and earliest-time search',
        'Exact ties (money there to the last cent) leave the time open.'),
    prop(
        'C18', 'No money appears or vanishes over the years of a forecast',
        "In every year of a forecast each sub-forecast acts once, taking "
        "over the money the one before it left; the year starts with what "
        "the last one left over and the tax refund or payment for it (tax "
        "withheld from income and accounts less tax owing, at the refund or "
        "payment timing); income adds each person's net income at their "
        "payment times; living expenses take exactly what is recorded; "
        "savings and withdrawals move between the money available and the "
        "accounts and nothing else, with tax withheld taken from what is "
        "withdrawn; nothing is saved without a surplus. Account balances "
        "carry over with their transactions and returns. All parties reach "
        "the same final year, and the recorded histories state what "
        "happened.",
        ['histories', 'inputs'],
        'every forecast of 2-8 years (and lifetimes of 15-60) of random households (Canadian or '
        'not, one or two people, accounts, debts, strategies, taxes)',
        'the tests reconcile no multi-year forecast of several parts',
        [F + 'base.py', F + 'income.py', F + 'living_expenses.py',
         F + 'saving.py', F + 'withdrawal.py', F + 'tax.py'],
        [('years', F + 'base.py Forecast'),
         ('carry-over', F + 'income.py IncomeForecast'),
         ('refunds', F + 'tax.py TaxForecast')],
        ['Forecast.*_history', 'SubForecast.*_history',
         'SubForecast.__call__()'],
        'runtime monitor: cash and wealth reconciliation of watched forecasts',
        'Known finding: the sign of tax withheld from withdrawals.'),
    prop(
        'C19', 'Forecasts repeat themselves and leave their inputs alone',
        "Running a forecast changes neither the people, accounts, debts, "
        "scenario and strategies it was given nor the forecaster's "
        "parameters, and copies relate to each other (spouses, owners, "
        "contributors) as the originals do. Running it again gives the same "
        "results: from the same objects, from copies, from fresh objects, "
        "after other forecasts, other scenarios or changes to an earlier "
        "result, and whether values come from settings or from explicit "
        "strategies. Parameters not set explicitly are built from the "
        "current settings, explicit arguments override settings, and "
        "reading, building or setting one parameter affects no other and "
        "no other forecaster.",
        ['histories', 'inputs'],
        'random households forecast repeatedly with 1-3 of seven kinds of '
        'event in between; sequences of 3-12 settings changed and '
        'parameters built, read and set',
        'tests check single forecasts and single parameters',
        ['forecaster/forecaster.py', 'forecaster/canada/forecaster.py',
         'forecaster/settings.py', F + 'base.py'],
        [('copies', 'forecaster/forecaster.py Forecaster.run_forecast'),
         ('parameters', 'forecaster/forecaster.py Forecaster.get_param, '
          'set_param, build_param')],
        ['Forecaster.run_forecast()', 'Forecaster.get_param()',
         'Forecaster.set_param()', 'Forecaster.build_param()'],
        'runtime monitor: comparison of recorded histories across runs',
        'Known finding: timings that depend on the order of sets.'),
]
U = 'forecaster/utility/'
PROPS += [
    prop(
        'C20', 'Settings written to file read back as they were',
        "Whatever values a settings (ValueReader) object holds - nested "
        "mappings and lists, text, numbers of any size and precision, "
        "infinities, high-precision keys - come back from a file exactly, "
        "with their types, in the precision asked for; numbers in text are "
        "read without loss. Attributes given by code override those read "
        "from file and defaults, setting or deleting one affects no other "
        "attribute or object, and what is written are the values held "
        "now. The shipped settings of the country packages read back too.",
        ['inputs', 'histories'],
        'random value trees, hand-written JSON texts, and histories of '
        'set, delete, read, write and construct over several objects',
        'tests write two or three settings',
        ['forecaster/value_reader.py', 'forecaster/settings.py',
         'forecaster/canada/settings.py', 'forecaster/canada/constants.py'],
        [('reading', 'forecaster/value_reader.py ValueReader.read'),
         ('writing', 'forecaster/value_reader.py ValueReader.write'),
         ('conversion', 'forecaster/value_reader.py _numeric_convert, _parse_float')],
        ['ValueReader.read()', 'ValueReader.write()',
         'ValueReader attributes'],
        'runtime monitor: round-trip identity against plain dicts',
        'Float infinities as mapping keys are left out.'),
    prop(
        'C21', 'Timings spread amounts in proportion to their weights',
        "A timing built in any documented way (time, word, frequency, "
        "code, mapping, copy) has its times within the year and weights "
        "proportionate to those given; amounts split along it add up to "
        "the amount, in proportion; building one from flows of both signs "
        "gives the most that can be taken out (or least that must be put "
        "in) at each time without running short later; adding and "
        "subtracting schedules of transactions is exact and leaves the "
        "operands alone.",
        ['inputs'],
        'every form of timing, native and Decimal, flows of up to eight '
        'times and both signs, histories of additions and subtractions',
        'tests use a few two-point timings',
        [U + 'timing.py'],
        [('construction', U + 'timing.py Timing.__init__'),
         ('splitting', U + 'timing.py Timing.time_series'),
         ('schedules', U + 'timing.py add_transactions, subtract_transactions')],
        ['Timing()', 'Timing.normalized()', 'Timing.time_series()',
         'transactions_from_timing()', 'add_transactions()',
         'subtract_transactions()'],
        'runtime monitor: exact rational reference model',
        'Only times and words within the year are given.'),
    prop(
        'C22', 'Inflation and returns compound over the years between',
        "A scenario gives each year the rate it was given for that year "
        "(as a number, list or mapping); adjusting money from one year to "
        "another multiplies the inflation of the years in between, "
        "backwards is the inverse of forwards, adjusting via a third year "
        "changes nothing, and adjusting to the same year is neutral, "
        "whatever was asked before and also after rates or years change. "
        "Incomplete time series (of tax brackets, deductions, accruals) "
        "are extended to other years by adjusting the nearest earlier "
        "value, and known values are kept.",
        ['inputs', 'histories'],
        'random scenarios of up to 120 years with every form of rate, '
        'queried in any order and changed on the way; random series of '
        'numbers, lists and nested mappings',
        'tests check a handful of years of two scenarios',
        ['forecaster/scenario.py', U + 'inflation.py'],
        [('adjustments', 'forecaster/scenario.py Scenario.inflation_adjust'),
         ('extension', U + 'inflation.py')],
        ['Scenario.inflation_adjust()', 'Scenario.inflation_adjustments()',
         'Scenario.accumulation_function()', 'extend_inflation_adjusted()',
         'inflation_adjust()'],
        'runtime monitor: exact products of yearly rates',
        'Years outside given mappings are not asked for.'),
    prop(
        'C23', 'People age, earn, retire and marry consistently',
        "A person's gross income grows each year by that year's raise "
        "until they retire and stops then; net income is gross less tax "
        "withheld by their tax treatment; incomes known in advance take "
        "precedence. Ages count birthdays (29 February included), and "
        "retirement ages and dates agree. Spouses are always each other's: "
        "marrying, remarrying, divorcing or a rejected marriage leaves no "
        "one linked to someone who is not linked to them. Accounts belong "
        "to their owners and contributors.",
        ['inputs', 'histories'],
        'careers of up to ten years in every form of dates, raises and tax '
        'treatments, changed on the way; marriage histories of up to five '
        'people; ages around every birthday',
        'tests check single years and a single marriage',
        ['forecaster/person.py', 'forecaster/ledger/base.py'],
        [('income', 'forecaster/person.py Person.next_year'),
         ('spouse', 'forecaster/person.py Person.spouse'),
         ('age', 'forecaster/person.py Person.age')],
        ['Person.gross_income', 'Person.net_income', 'Person.age()',
         'Person.spouse', 'Person.retirement_age', 'Person.accounts'],
        'runtime monitor: career and couple models',
        'A retirement date of None after construction is left out.'),
    prop(
        'C24', 'High precision is kept throughout and agrees with floats',
        "Where a high-precision number type is used, every figure - "
        "balances, flows, limits, taxes, incomes, expenses, adjustments, "
        "histories of whole forecasts - is of that type, has not passed "
        "through an ordinary float on the way, and agrees with the figures "
        "that ordinary numbers give; forecasts in ordinary numbers contain "
        "no high-precision values. Objects of different number types used "
        "side by side do not affect each other's values or types.",
        ['inputs', 'configurations'],
        'random accounts of every class, people, taxes, scenarios, '
        'timings, strategies and whole forecasts in both number types; '
        'interleaved use of objects of five number types',
        'the test suite repeats single examples with Decimal',
        [U + 'precision.py', A + 'base.py', A + 'util.py',
         'forecaster/tax.py', 'forecaster/person.py', F + 'base.py'],
        [('conversion', U + 'precision.py'),
         ('accounts', A + 'base.py'), ('interest', A + 'util.py')],
        ['all figures of accounts, people, taxes, scenarios and forecasts',
         'HighPrecisionOptionalProperty'],
        'runtime monitor: type taint and response to sub-float changes',
        'Allocations are multiples of 0.00001 by design, and are compared '
        'to that precision; two runs that differ only in the timing of '
        'transactions where rounding decides a tie are not compared '
        'further.'),
    prop(
        'C25', 'Portfolios keep to their bounds and earn what they hold',
        "An asset allocation always adds up to 1, keeps stocks between the "
        "least and most allowed, and follows its strategy: (n - age)% in "
        "stocks, or a straight move from the most to the target over the "
        "transition period before retirement - at the standard age, or "
        "adjusted for the person's own plans - never riskier with age. "
        "What bounds move out of or into stocks goes to or comes from the "
        "other assets in proportion. The return of accounts that follow a "
        "strategy is the weighted return of what it holds that year, at "
        "the person's age, in the current scenario.",
        ['inputs', 'histories'],
        'all strategies with random targets, bounds, periods and ages from '
        '0 to 120; arbitrary portfolios of three assets; accounts followed '
        'for up to eight years of changing plans and scenarios',
        'tests check a few ages of two strategies',
        [S + 'allocation.py', S + 'base.py'],
        [('strategies', S + 'allocation.py AllocationStrategy.strategy_*'),
         ('bounds', S + 'allocation.py _balance_allocation'),
         ('returns', S + 'allocation.py RateFunction')],
        ['AllocationStrategy.__call__()', 'RateFunction.__call__()',
         'Account.rate'],
        'runtime monitor: exact reference formulas',
        'Bounds within [0, 1].'),
    prop(
        'C26', 'Living expenses follow their strategy, in real terms',
        "Living expenses are what the chosen strategy says - what is left "
        "of net income after a real contribution, a constant real amount, "
        "a share of net or gross income, a base and a share of what is "
        "earned above it, or a share of incomes or of the principal at "
        "retirement, carried forward in real terms - and never negative. A "
        "schedule uses the working strategy up to and including the year "
        "of retirement and the other one afterwards, and never less than "
        "its minimum, however nested. Whole forecasts spend just that, "
        "with retirement when the first person retires.",
        ['inputs', 'histories'],
        'every strategy, with and without inflation adjustment, nested '
        'schedules and minimums, groups of up to three people with joint '
        'accounts over up to seven years; whole forecasts',
        'tests check each strategy for one year',
        [S + 'gross_transaction.py', F + 'living_expenses.py'],
        [('strategies', S + 'gross_transaction.py LivingExpensesStrategy'),
         ('schedules',
          S + 'gross_transaction.py LivingExpensesStrategySchedule')],
        ['LivingExpensesStrategy.__call__()',
         'LivingExpensesStrategySchedule.__call__()',
         'Forecast.living_expenses_history'],
        'runtime monitor: reference formulas over recorded histories',
        'The principal at retirement counts no debts here.'),
    prop(
        'C27', 'Each sub-forecast moves just the money it is there to move',
        "Whatever money is available: the income sub-forecast adds each "
        "person's net income when they are paid; the living expenses one "
        "takes what the strategy says, when people are paid, in proportion "
        "to net incomes (or equally without any); the saving one moves "
        "what the strategy says into each account and debt, not earlier "
        "than it says, and only out of a surplus; the withdrawal one moves "
        "what the strategy says out of each account, less tax withheld on "
        "it; the tax one moves nothing and sets tax withheld against tax "
        "owing. Strategies are asked about the right people, accounts, "
        "money and year. A repeated call replaces the one before it, "
        "undoing restores the accounts, and what is reported and recorded "
        "for each year is what happened.",
        ['inputs', 'histories'],
        'every sub-forecast over up to four years with arbitrary money, '
        'strategies and taxes, called zero to two times a year, undone '
        'at random',
        'tests call each with one fixed household',
        [F + 'income.py', F + 'living_expenses.py', F + 'saving.py',
         F + 'withdrawal.py', F + 'tax.py', F + 'subforecast.py'],
        [('income', F + 'income.py IncomeForecast'),
         ('living expenses', F + 'living_expenses.py'),
         ('saving', F + 'saving.py'), ('withdrawal', F + 'withdrawal.py'),
         ('tax', F + 'tax.py')],
        ['IncomeForecast', 'LivingExpensesForecast', 'SavingForecast',
         'WithdrawalForecast', 'TaxForecast'],
        'runtime monitor: shadow account with scripted strategies',
        'Known finding: the sign of tax withheld from withdrawals. Living '
        'expenses are compared time by time where money is ample.'),
    prop(
        'C28', 'What is refused, or fails, leaves no trace and may be retried',
        "A request with an invalid argument is refused with an error, and "
        "a request that fails because something it relies on (a rate, a "
        "raise, a tax treatment, an inflation adjustment, a strategy) "
        "failed leaves everything as it was: no balance, transaction, "
        "history, relation, limit or setting changes, and asking again "
        "once the cause is gone gives what it would have given had nothing "
        "failed. This holds for settings and amounts, for a year being "
        "advanced (of people and accounts sharing no contribution room), a "
        "figure asked for, a sub-forecast called or undone, a tax assessed "
        "and a whole forecast, wherever in it the failure occurs.",
        ['inputs', 'histories', 'fault_sequences'],
        'every kind of argument refused by people, accounts, contribution '
        'limits and transactions; a failure at an arbitrary one of the '
        'points where user-given code runs, over several years',
        'tests assert that errors are raised, not what is left behind',
        ['forecaster/ledger/base.py', 'forecaster/accounts/base.py', 'forecaster/person.py',
         F + 'subforecast.py', F + 'base.py'],
        [('refusals', 'forecaster/accounts/base.py setters'),
         ('years', 'forecaster/ledger/base.py Ledger.next_year'),
         ('sub-forecasts', F + 'subforecast.py SubForecast')],
        ['Ledger.next_year', 'Account', 'Person', 'SubForecast', 'Forecast'],
        'runtime monitor: fault injection with full state snapshots '
        'compared before and after, and with an undisturbed twin',
        'Known findings: an RRSP whose construction fails half-way stays '
        'registered with its owner; so do the accounts linked to it.'),
    prop(
        'C29', 'Units of money, calendars and bystanders make no difference',
        "A forecast does not depend on what it is measured in or when it "
        "happens: with every amount of money (the law's included) stated in "
        "another unit, every amount forecast is stated in that unit; with "
        "every date moved by any number of years, the same happens that "
        "many years later. Nor is it changed by adding debts of nothing or, "
        "while others earn, unattached people who earn, own and owe "
        "nothing; and nothing happens to those. The same "
        "is true of the units and dates of single accounts and tax "
        "schedules and of the unit of money allocated along priorities.",
        ['inputs', 'histories'],
        'households of up to three people, plain and Canadian; shifts of up '
        'to 3000 years, units from 1/4 to a million; accounts of five kinds '
        'put through arbitrary operations',
        'no test runs the same forecast twice; each uses a few years around '
        '2000 and amounts in hundreds',
        ['forecaster/forecaster.py', F + 'base.py', 'forecaster/accounts/base.py',
         'forecaster/tax.py', 'forecaster/strategy/transaction/base.py',
         'forecaster/scenario.py', 'forecaster/canada/accounts/tfsa.py'],
        [('forecast', F + 'base.py Forecast'),
         ('accounts', 'forecaster/accounts/base.py Account'),
         ('tax', 'forecaster/tax.py Tax'),
         ('allocation', 'forecaster/strategy/transaction/base.py')],
        ['Forecast', 'Account', 'Tax', 'TransactionTraversal'],
        'runtime monitor: metamorphic comparison of recorded histories',
        'Amounts are compared up to what solvers leave (half a unit per '
        'forecast amount, 1e-9 relative elsewhere).'),
    prop(
        'C30', 'Looking is free',
        "What is read or asked changes nothing: any property, recorded "
        "history, limit, permitted flow, balance, contribution room, tax, "
        "bracket, rate, inflation figure or strategy's proposal may be looked "
        "at (or a household copied), any number of times and in any order, "
        "between a household's transactions and years and between and within "
        "the steps of its forecast, and everything that happens and is "
        "recorded afterwards is what it would have been had nobody looked.",
        ['household', 'looks'],
        'households of up to three people, plain and Canadian, both number '
        'types; looks between any two moves of money',
        'values are cached and memoised throughout; each test reads a few '
        'figures once, after the fact',
        ['forecaster/ledger/recorded_property.py', 'forecaster/accounts/base.py',
         F + 'base.py', F + 'subforecast.py', 'forecaster/tax.py',
         'forecaster/canada/accounts/rrsp.py',
         'forecaster/strategy/transaction/base.py'],
        [('records', 'forecaster/ledger/recorded_property.py'),
         ('accounts', 'forecaster/accounts/base.py Account'),
         ('forecasts', F + 'base.py Forecast')],
        ['recorded_property_cached', 'Account', 'RRSP', 'Forecast', 'Tax'],
        'runtime monitor: twins, one observed throughout by instrumented '
        'sub-forecasts, strategies and tax treatments',
        'Living expenses read before they are forecast stand, as '
        'do values cached before an input they depend on is replaced '
        '(a new balance, say); no looking while a year is turning.'),
    prop(
        'C31', 'Copies live on as the originals would, and apart',
        "A copy of a household (however it was reached: all together, people, "
        "accounts and debts, or through one of its members), or of a forecast "
        "at any step, in which everyone is related to the copies of those the "
        "original is related to, is at first the same in everything that can "
        "be seen; from then on each lives its own life: what happens to one "
        "changes nothing in the other, and the same happens to either as would "
        "have happened to a household that was never copied - transactions, "
        "contribution room, limits, conversions, years, steps of a forecast "
        "made or undone. Households that have lived for years are forecast "
        "like others, and keep their pasts.",
        ['household', 'point of copying', 'two lives'],
        'households of up to three people, plain and Canadian, both number '
        'types, copied before, between and within years and forecasts',
        'forecasters rely on copies to keep forecasts apart; tests copy next '
        'to nothing, and only what has just been made',
        ['forecaster/forecaster.py', 'forecaster/accounts/link.py',
         'forecaster/accounts/linked_limit.py', F + 'subforecast.py',
         'forecaster/person.py', 'forecaster/canada/accounts/registered_account.py'],
        [('copying', 'forecaster/forecaster.py Forecaster.run_forecast'),
         ('links', 'forecaster/accounts/link.py AccountLink'),
         ('records of forecasts', F + 'subforecast.py TransactionDict')],
        ['Forecaster', 'AccountLink', 'LinkedLimitAccount', 'TransactionDict',
         'Forecast'],
        'runtime monitor: copies and originals compared with twins that were '
        'never copied',
        'Shallow copies of single objects are out of scope, as they share '
        'what they hold.'),
    prop(
        'C32', 'The same plan in other words fares the same',
        "It does not matter in which of the accepted forms a plan is put: "
        "rates as numbers, sequences, mappings or functions of the year; "
        "birthdays and retirements as text, years, dates or datetimes; "
        "frequencies as codes or numbers; times as words, numbers or "
        "mappings, with weights in any order, proportion or sign; law with "
        "brackets in any order, or split without a change of rate, and price "
        "levels as functions or mappings; one jurisdiction alone or as one of "
        "one; strategies by name or by method, weights in any proportion; "
        "figures as arguments or in advance as inputs. Accounts, taxes, "
        "scenarios and whole forecasts come out the same, and the recorded "
        "incomes, rates and balances of a forecast, given in advance, make the "
        "same forecast again.",
        ['plan', 'forms it is put in'],
        'households of up to three people, plain and Canadian, both number '
        'types; single accounts, tax schedules and scenarios',
        'each test uses one form of each input; nothing compares them',
        ['forecaster/person.py', 'forecaster/accounts/base.py',
         'forecaster/scenario.py', 'forecaster/utility/timing.py',
         'forecaster/utility/inflation.py', 'forecaster/tax.py',
         'forecaster/ledger/recorded_property.py',
         'forecaster/strategy/transaction/strategy.py'],
        [('inputs in advance', 'forecaster/ledger/base.py Ledger'),
         ('rates', 'forecaster/accounts/base.py Account.rate_callable'),
         ('rates of the economy', 'forecaster/scenario.py Scenario'),
         ('times', 'forecaster/utility/timing.py Timing')],
        ['Person', 'Account', 'Scenario', 'Timing', 'Tax', 'TaxMulti',
         'LivingExpensesStrategy', 'TransactionStrategy'],
        'runtime monitor: metamorphic comparison of recorded histories',
        'Amounts agree within 0.02 in whole forecasts (solvers), 1e-9 '
        'relative elsewhere.'),
]

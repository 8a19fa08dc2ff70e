#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the texts)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech], observe_at=observe or [], hook_needed=None)))


inp = ['inputs']
prop('C01', 'Every payoff pays exactly its contractual amount',
     'For every strike and every finite spot, a vanilla call (put) pays max(S-K,0) (max(K-S,0)), a digital call (put) pays 1 exactly when S>K (S<K) and 0 otherwise, a double digital pays 1 exactly when K_L<=S<=K_U and 0 otherwise, and a floating-strike lookback call (put) pays max(S-extreme,0) (max(extreme-S,0)). The amounts are exact in IEEE double arithmetic.',
     inp, 'all finite doubles S, extreme and all accepted strikes, both payoff types',
     'tests evaluate a handful of (S,K) pairs; equality cases, negative and huge spots and the digital boundary are not enumerable',
     ['src/payoff/single_strike/payoff_vanilla.cpp', 'src/payoff/single_strike/payoff_digital.cpp', 'src/payoff/double_strikes/payoff_double_digital.cpp', 'src/payoff/payoff_floating_strike_lookback.cpp'],
     [('operator() of each payoff class', 'src/payoff')], ['Payoff::operator()'])
prop('C02', 'Payoffs and options reject invalid terms and copy faithfully',
     'A payoff is constructible exactly when its type is call/put (double digital: its strikes) and every strike is a non-negative number, an option exactly when its maturity is a non-negative number; anything else, NaN included, raises std::invalid_argument. A clone reports the same type and strikes, pays the same amount, and compares equal; two payoffs of the same family compare equal exactly when their strikes (and, for single-strike payoffs and lookbacks, types) agree.',
     inp, 'all doubles (including NaN, infinities, signed zero) as strikes and maturities, all payoff classes and option classes',
     'tests construct a few valid and one or two invalid objects', ['include/payoff', 'src/payoff', 'src/option/base_option.cpp', 'src/option'],
     [('validateStrike / constructor checks', 'src/payoff'), ('maturity check', 'src/option/base_option.cpp'), ('clone', 'src/payoff'), ('operator==', 'src/payoff')])
prop('C03', 'Stock data is always valid and updates are all-or-nothing',
     'A stock always has a price > 0 (a number), a volatility >= 0 (a number) and, when present, a coupon in [0,1]. Construction and every setter or update accept exactly such values and raise std::invalid_argument otherwise, and a rejected change leaves every field as it was; an accepted one changes exactly the fields given.',
     ['inputs', 'histories'], 'all doubles including NaN, all subsets of fields in an update, any starting state (hence any history)',
     'atomicity depends on the combination of valid and invalid fields; tests try single invalid fields', ['src/market_data/stock_data.cpp', 'include/market_data/stock_data.h'],
     [('validation before assignment', 'src/market_data/stock_data.cpp')])
prop('C04', 'The market-data registry answers for exactly the stocks added',
     'After any history of operations the registry holds exactly the stocks added, each with the values last accepted for it: adding registers (or replaces) exactly the named ticker, a rejected addition or update changes nothing, updating or looking up an unknown ticker raises std::invalid_argument, operations on one ticker never change another or the rate, and the risk-free rate is the last one set. A handle returned by getStockData shows later accepted updates, and every getInstance call yields the same registry.',
     ['histories', 'inputs'], 'any registry content, any ticker strings and values, one operation at a time from an arbitrary state (hence all histories)',
     'tests exercise short fixed histories on one or two tickers', ['src/market_data/market_data.cpp', 'include/market_data/market_data.h'],
     [('stockDataMap_ lookups and updates', 'src/market_data/market_data.cpp'), ('addStock', 'include/market_data/market_data.h')], ['MarketData::getStockData', 'MarketData::getR'])
prop('C05', 'Each change notifies exactly the live observers concerned',
     'Every accepted change of a stock price, volatility or coupon calls update() once per registration on each live observer whose id is that ticker, and on no other; every change of the rate does so for all live observers; a rejected change or an unknown ticker notifies nobody. Observers see the new value when notified, may register or drop observers while being notified, and expired observers are skipped; adding an observer appends exactly that observer, removeObserver drops exactly the expired ones.',
     ['histories', 'inputs'], 'any number of registered observers, any mix of live, expired and duplicate registrations, any ticker, any operation',
     'tests register one or two observers and count one notification',
     ['src/market_data/market_data.cpp', 'src/market_data/market_data_observer.cpp'], [('notifyObserver / notifyObservers', 'src/market_data/market_data.cpp'), ('removeObserver', 'src/market_data/market_data.cpp')], ['MarketDataObserver::update'])
prop('C06', 'Factories build exactly the option described by the parameters',
     'A factory returns an option of its own class whose payoff class and type, strike(s), maturity, ticker, barrier and direction are the given parameters; a missing, wrongly typed or invalid parameter or an unknown ticker raises std::invalid_argument, and no other parameter influences the result; the option is registered exactly once as an observer of the market data, a rejected one never. A parameter object returns for every name the value last set for it, and raises std::invalid_argument for unknown names and for type mismatches.',
     ['inputs', 'histories'], 'all parameter values and names', 'tests build one option per factory with fixed values',
     ['include/option', 'src/option', 'include/option/parameter_object.h'], [('createOption', 'src/option'), ('getParameter', 'include/option/parameter_object.h')])
json.dump  # noqa
exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None

NA = []
CLAIM = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for p in sorted(P, key=lambda p: p['id']):
    i = p['id']
    if i in NAR:
        NA.append(dict(property=i, reason=NAR[i]))
        continue
    if not os.path.exists(os.path.join(V, 'opv', 'specs', i + '.py')):
        NA.append(dict(property=i, reason='contracts for this property are still being written'))
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt opv/check.py %s --tier quick' % i,
                       thorough_cmd='python3-vt opv/check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contract-based deductive verification of the clang AST of /repo (own VC generator; algebra normaliser + z3 + cvc5), failing obligations replayed on the real code',
                       level='proof', level_note=NOTE.get(i, DEFNOTE)))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=NA,
         notes='No hooks are added to /repo: its sources are verified as they are. Known findings and repairs: known-findings.txt; design: DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not claimed')

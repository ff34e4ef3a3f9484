#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are edited)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


CU, IR, CR = 'dcf/curves/curve.py', 'dcf/curves/interestratecurve.py', 'dcf/curves/creditcurve.py'
VO, FX, IN = 'dcf/curves/volatilitycurve.py', 'dcf/curves/fx.py', 'dcf/interpolation.py'
CF, CO, PO = 'dcf/cashflows/cashflow.py', 'dcf/cashflows/contingent.py', 'dcf/cashflows/payoffs.py'
PD, PR, OP = 'dcf/cashflows/products.py', 'dcf/pricer.py', 'dcf/models/optionpricing.py'

p('C01', 'Interpolations equal their documented function at every point',
  'Each interpolation (no, zero, default value, left/constant, right, nearest, linear, log-linear, '
  'log-linear by rate, log-constant by rate, flat, and the left/mid/right schemes built from them) returns at every '
  'real x exactly the value of its documented function of the given points: the point values at the points, the '
  'documented rule between them and its extrapolation outside. '
  'The result depends only on the set of points, not on their order, on how the object was built (lists or dict) '
  'or on what was evaluated before; schemes refuse repeated points and unequal lengths, and curves use the interpolation registered under the given name.',
  ['inputs', 'histories'],
  'all finite sets of 1..60 distinct points (positive values for the log types), in any order, with spacing from '
  '1e-6 to 1e3, all x at, between, just beside, midway and far outside the points, in any evaluation order; on values of '
  'moderate size; nearest takes the left one of two equally near points; log types by rate need x>0 points (a point at 0 gives the value there, without one it is 1).',
  'the tests evaluate a handful of three point grids at a few x; ties, single points, unsorted and large grids '
  'and far extrapolation are not reached.',
  [IN], [('bisect based lookup', IN), ('interpolation_scheme dispatch', IN)],
  ['dcf.interpolation.*.__call__', 'Curve.__call__'])
p('C02', 'A curve is a faithful map of its points through any history of updates',
  'After any sequence of point assignments curve[x]=v, reads and evaluations, a curve evaluates everywhere like a curve '
  'freshly built from the points last assigned: every assigned point returns its last value, no other point changes, '
  '`x in curve`, `curve[x]` (KeyError off the points), iteration and domain agree with the points. '
  'The order in which points are given or assigned and the container (tuple or list) never matter, a list of x gives the list of values, and '
  'unequal numbers of points and values are refused with ValueError.',
  ['histories', 'inputs'],
  'all histories of up to 60 assignments/reads on Curve, DateCurve and rate curves over float, datetime.date and '
  'BusinessDate domains with any interpolation.',
  'tests assign one or two points on one curve; interleavings of assignments and evaluations, unsorted insertion and '
  'assignments under a spread or with fixings present are not sampled.',
  [CU, IN], [('Curve.__setitem__/_update', CU)], ['Curve.__setitem__', 'Curve.__call__', 'Curve.domain'])
p('C03', 'Dates act only through year fractions from the origin',
  'The default year fraction between two dates is their difference in days divided by 365.25 (or the plain difference for '
  'float dates), is additive and antisymmetric, and is the same for datetime.date and BusinessDate. '
  'A curve given on dates returns at any date what the curve on the corresponding year fractions from its origin returns, whatever the date type, '
  'and a day count function given by the user is used for all its year fractions.',
  ['inputs', 'configurations'],
  'all dates from 1950 to 2150 incl. leap days and month ends, dates before the origin, float dates, all origins '
  '(explicit, or implicit first given date), user day count functions which do not vanish between the dates used.',
  'tests use today-relative dates on one date type at a time and never cross check date types or custom day counts.',
  ['dcf/daycount.py', CU], [('day_count', 'dcf/daycount.py'), ('DateCurve.day_count', CU)],
  ['dcf.daycount.day_count', 'DateCurve.day_count', 'DateCurve.__call__'])
p('C04', 'Fixings and spreads overlay the curve exactly and leave it unchanged',
  'A fixing replaces the value of a date curve at exactly its date and nowhere else (also in factors and rates derived from it); a spread curve adds its value to every '
  'value of a rate curve (including those used for discount factors and rates derived from it). '
  'A second spread is refused with TypeError while one is set, and removing fixing or spread restores every value exactly, '
  'also after points were assigned meanwhile.',
  ['histories', 'inputs'],
  'all date/rate/forward curves, all histories of setting and removing fixings and spreads mixed with point assignments '
  'and evaluations.',
  'there are no tests for fixings and only pricer results for spreads.',
  [CU], [('DateCurve.__call__ fixings', CU), ('RateCurve.spread', CU)],
  ['DateCurve.fixings', 'RateCurve.spread'])
p('C05', 'Curve arithmetic is pointwise on the union of the domains',
  'For curves f, g the curves f+g, f-g, f*g and f/g have as domain the union of both domains and there the '
  'value f(x) op g(x); division by a curve with a zero in the domain raises ZeroDivisionError. '
  'For date and zero/short/flat-intensity/hazard rate curves with the same origin the result keeps type, origin, day count, interpolation and forward tenor of f, '
  'and neither operand is changed. If g is a rate curve of another type its cast to the type of f takes part.',
  ['inputs', 'histories'],
  'all pairs of plain, date and rate curves of the same type, and of two rate (or two credit) curve types on BusinessDate, with equal origin, overlapping, nested and disjoint domains, list or tuple, chained operations; zeros which are exact numbers; rate curves without fixings and spreads.',
  'tests combine two curves on equal lists of points.',
  [CU], [('Curve/DateCurve/RateCurve operators', CU)], ['Curve.__add__', 'Curve.__sub__', 'Curve.__mul__', 'Curve.__truediv__'])
p('C06', 'Curves built from curves or their kwargs keep their conventions',
  'Constructing type(c)(**c.kwargs) gives a curve equal to c everywhere with the same origin, day count, interpolation and tenor. '
  'Building a date or rate curve from another curve takes over its origin, day count function and (rate curves) forward tenor unless given explicitly, '
  'explicit ones win, and the source curve is not changed; given points as well, the new curve takes the values of the source there. '
  'shifted(d) of a curve has its points x+d and its values there, and the deprecated cast and to_curve methods give what the constructors do.',
  ['inputs', 'configurations'],
  'all curve types with any combination of explicit and implicit origin, day count function, named, class or custom '
  'interpolation function (the latter for plain and date curves) and forward tenor.',
  'tests clone curves with default conventions only.',
  [CU, CR, IR, FX], [('Curve.kwargs', CU), ('RateCurve.__init__ cast', CU)], ['Curve.kwargs', 'cast constructors'])
p('C07', 'Rate tables show the curve value at every grid date plus period',
  'rate_table(curve, x_grid, y_grid) has the header row of periods and for each grid date x_i one row starting with x_i holding exactly curve(x_i+y_j) '
  'for every period y_j with x_i+y_j < x_(i+1), the last row being bounded by the last date plus twice the longest period. '
  'The default grid is the sorted curve domain with the origin (if the curve has one) added where missing, in whatever order points were given or assigned; the default table of a curve is the same table, and building it changes nothing.',
  ['inputs'],
  'all curves on float and BusinessDate grids, any x grid (repeated and unsorted dates too) and any period grid starting with zero; default grids of two or more dates.',
  'only two doctests show one small table each.',
  [CU], [('rate_table', CU)], ['dcf.rate_table', 'Curve.table'])
p('C08', 'Discount factor, zero, cash rate and swap annuity are one consistent set',
  'For every interest rate curve and dates s<t: df(s,t) = exp(-z(s,t) tau(s,t)), cash rate f(s,t) = (1/df(s,t)-1)/tau(s,t) '
  'also with period given as step, stop or default tenor, the one-date forms start at the origin, df(t,t)=1, '
  'and the swap annuity of dates t_0..t_n is the sum over i>=1 of df(0,t_i) tau(t_(i-1),t_i). '
  'A stop and a step that do not meet raise AssertionError; the zero rate of an empty period is the one stored there (short and cash rates) or of the next day.',
  ['inputs', 'histories'],
  'all four interest rate curve types with any domain, rates (negative too), origin, day count (which does not vanish between different dates), spreads set, points reassigned and date pairs, also before the first or after the last point.',
  'tests check round trips on one or two flat-ish curves at their grid points.',
  [IR, CU, 'dcf/compounding.py'], [('InterestRateCurve methods', IR), ('_get_compounding_*', CU)],
  ['get_discount_factor', 'get_zero_rate', 'get_cash_rate', 'get_swap_annuity'])
p('C09', 'Discounting chains: no arbitrage between any dates',
  'For zero rate and discount factor curves df(a,c) = df(a,b) df(b,c) for all dates a, b, c (in any order, origin included) and df(a,b) df(b,a) = 1; for short rate curves '
  'and cash rate curves the chain holds for a<=b<=c when b lies on the step grid from a. '
  'df(0,t) is strictly positive and with non negative (stored short or forward) rates not increasing in t.',
  ['inputs'],
  'all curves as in C08 and all triples of dates; day counts additive where needed; BusinessDate for the stepping types; non negative short/cash rates for monotony.',
  'tests never compare discount factors of overlapping periods.',
  [IR, CU], [('_get_compounding_factor/_rate', IR)], ['get_discount_factor'])
p('C10', 'Each interest rate curve type returns the quantity it stores',
  'A zero, discount factor, short or cash rate curve returns the rate or factor given at each of its points as its zero rate from the origin, discount factor from the origin, '
  'short rate, or cash rate for its tenor, and between points exactly what its interpolation of these quantities implies: zero rate times time difference for zero curves, factor ratios for '
  'discount factors, integrated piecewise short rates and compounded tenor rates. '
  'The short rate of the other types is constant between grid points and equal to the forward zero rate over the enclosing grid period.',
  ['inputs', 'histories'],
  'all curves of 1..40 points as in C08, all dates; BusinessDate (day stepping) for short rate integrals.',
  'tests sample one curve per type at its grid with a few decimals.',
  [IR, CU, IN], [('type specific _get_compounding_* and _get_short_rate', IR)],
  ['get_zero_rate', 'get_discount_factor', 'get_short_rate', 'get_cash_rate'])
p('C11', 'Casting interest rate curves preserves the rates it stores',
  'Casting any interest rate curve to any other interest rate curve type, on its own or on a given domain, gives a curve whose '
  'stored quantity at each point of the new domain equals that quantity of the source curve, with the origin of the source. '
  'Discount factors of zero rate and discount factor casts agree with the source at every common point, and casting back and forth returns the original values there.',
  ['inputs', 'configurations'],
  'all ordered pairs of the four types on BusinessDate domains and, with explicit domain and a tenor of the date type, on float and datetime.date domains; chains of casts, with explicit or inherited tenor, origin and day count.',
  'tests cast a few curves and compare with 2 to 6 decimals.',
  [IR, CU], [('RateCurve.__init__', CU), ('_get_storage_value', IR)], ['cast constructors', 'RateCurve.cast'])
p('C12', 'Survival probability, intensity and hazard rate are one consistent set',
  'For every credit curve and dates s<t: sv(s,t) = exp(-lambda(s,t) tau(s,t)), sv(t,t)=1 before and 0 from default on, no survival beyond default, one-date forms start at the origin, and with non negative '
  'intensities sv(s,t) lies in [0,1] and does not increase in t. '
  'For survival/default probability and flat intensity curves sv(a,c) = sv(a,b) sv(b,c); default probability data is one minus survival probability data.',
  ['inputs', 'histories'],
  'all six credit curve types, probabilities in (0,1) incl. values within 1e-12 of 0 or 1, any origin, day count, spreads on intensities, reassigned points and all dates.',
  'tests use a few grids with one decay.',
  [CR, CU], [('CreditCurve methods', CR), ('ProbabilityCurve clamp', CR)],
  ['get_survival_prob', 'get_flat_intensity', 'get_hazard_rate'])
p('C13', 'Each credit curve type returns the quantity it stores',
  'Survival/default probability, flat intensity, hazard rate and marginal survival/default probability curves return the given value at each of their points as survival probability from the origin (default: one minus it), '
  'intensity from the origin, hazard rate, or survival probability over one tenor, and between points what their interpolation of this quantity implies. '
  'Hazard rates are constant between grid points and equal the intensity over the enclosing grid period.',
  ['inputs', 'histories'],
  'all credit curves as in C12, BusinessDate for the stepping types.',
  'tests compare few decimals on one curve.',
  [CR, CU, IN], [('type specific _get_compounding_*', CR)], ['get_survival_prob', 'get_flat_intensity', 'get_hazard_rate'])
p('C14', 'Casting credit curves preserves the quantity stored',
  'Casting any credit curve to any other credit curve type, on its own or a given domain, gives a curve whose stored quantity at each point of the new domain '
  'equals that quantity of the source curve (probabilities up to their clamping into the open unit interval), with the origin of the source. '
  'Survival probabilities of casts to survival, default probability and flat intensity curves agree with the source at every common point.',
  ['inputs', 'configurations'],
  'all ordered pairs of the six credit curve types on BusinessDate domains and, with explicit domain and a tenor of the date type, on float and datetime.date domains, with explicit or inherited origin, day count and tenor.',
  'tests cast along one chain with 2 to 4 decimals.',
  [CR, CU], [('RateCurve.__init__', CU), ('_get_storage_value', CR)], ['cast constructors'])
p('C15', 'Total variance of volatility curves is additive over time',
  'For a terminal volatility curve the terminal volatility from the origin is the interpolated value, '
  'sigma(s,t)^2 tau(s,t) + sigma(0,s)^2 tau(0,s) = sigma(0,t)^2 tau(0,t) for all s<t, and decreasing total variance raises ZeroDivisionError or is floored if FLOOR is set; start after stop gives 0. '
  'For an instantaneous volatility curve the terminal volatility from s to t is the root mean square of the instantaneous volatility over the period, and flat curves of both types agree everywhere.',
  ['inputs'],
  'all volatility curves on float and date grids with non negative volatilities, all date pairs on or after the origin, FLOOR unset or set; integrals of instantaneous volatilities up to the accuracy 1e-3 of the quadrature on grids of 150 days and more.',
  'tests use one humped curve with 1 to 2 decimals.',
  [VO, CU], [('get_terminal_vol', VO), ('DateCurve.integrate', CU)], ['get_terminal_vol', 'get_instantaneous_vol'])
p('C16', 'Forward curves interpolate prices and extrapolate by the yield',
  'Up to the latest given date a forward price curve interpolates the given prices (log-linear by default, flat before the first); beyond it returns the price at the '
  'latest date T divided by the discount factor from T: exp(y tau(T,t)) growth for a float yield, the ratio g(T)/g(t) for a function g, and 1/df(T,t) for an interest rate curve, no growth for None. '
  'It is continuous at T and the order of the given dates, a spot number or a Price object make no difference.',
  ['inputs', 'histories'],
  'all positive price grids of 1..40 dates (float and calendar dates, in any order, points added later), all yields and yield curves (incl. changed after construction), all dates.',
  'regression tests for forward curves never compare values; unit tests use two dates.',
  [CU, IN], [('ForwardCurve.get_forward_price', CU)], ['ForwardCurve.__call__', 'get_forward_price'])
p('C17', 'FX forwards and FX containers are consistent across all pairs',
  'Beyond its latest date an fx forward curve returns that rate times the domestic over the foreign discount factor from there, up to it the interpolated rate. '
  'In an fx container, after any sequence of adds and re-adds, every ordered pair of different currencies exists, holds at the origin the spot implied by the last added spots '
  '(1 if none is given; base/foreign = spot, inverse for the swapped pair, the cross ratio otherwise) and forwards of swapped pairs are inverse and of crosses triangulate at every date; container[c] is the dict of its pairs.',
  ['histories', 'inputs'],
  'all histories of up to 25 adds/re-adds of up to 8 currencies (equal but not identical currency strings included), any zero/discount factor curves sharing the origin, all dates on or after it.',
  'the container has no test at all; fx forwards only two.',
  [FX, CU], [('FxContainer.add', FX), ('FxForwardCurve.get_forward_price', FX)], ['FxContainer', 'FxForwardCurve'])
p('C18', 'Cashflow lists are read-only maps from pay dates to amounts',
  'A fixed or plain cashflow list returns for each pay date its amount and 0 for any other date, for tuples and lists elementwise, a scalar amount meaning that amount at every date, '
  'with origin as given or the first date, and unequal lengths raising ValueError. '
  'A leg list has the sorted union of the leg dates, at each date the sum over its legs, calling any list evaluates it to the plain list of the same amounts, the table lists them, and no read changes anything, nor do later changes of the lists they were built from. Empty lists of all types have no dates, no origin and no value.',
  ['inputs', 'histories'],
  'all lists of 0..60 distinct pay dates (float, datetime.date, BusinessDate; sorted or not), amounts of any sign and size, nested, shared and empty legs of all cashflow list types.',
  'tests build a few lists on the same schedule.',
  [CF, PO], [('CashFlowList.__getitem__/__call__', CF), ('CashFlowLegList', CF)],
  ['CashFlowList.__getitem__', 'CashFlowList.__call__', 'CashFlowList.table'])
p('C19', 'Rate cashflows pay notional x year fraction x (fixed + floating rate)',
  'Each rate cashflow equals N_i tau(s_i,e_i) (c + f(d_i)) with periods s_i=t_(i-1), e_i=t_i (s_1 the origin, or one step before the first date), both moved back by the pay offset, '
  'fixing date d_i = s_i minus fixing offset, tau the given day count and f the forward curve (its cash rate, a function or a number; absent means 0). '
  'Re-setting fixed rate or forward curve takes effect at the next read on all cashflows, calling the list with a forward (any number, function, curve or model) uses that one for the result only, and the table shows the same numbers and dates.',
  ['inputs', 'histories'],
  'all schedules of 1..60 dates (float, datetime.date, BusinessDate) with given origin or none, varying notionals incl. negative and zero, negative rates, all offsets and forward curves, all histories of re-setting.',
  'tests evaluate one or two regular schedules.',
  [CF, PO], [('RateCashFlowList.__init__', CF), ('RateCashFlowPayOff.details', PO)], ['RateCashFlowList.__getitem__', 'RateCashFlowList.table'])
p('C20', 'Collared rate cashflows equal float rate plus floorlet minus caplet',
  'Each contingent rate cashflow equals N tau (c + f + floorlet(K) - caplet(L)) with floorlet and caplet the put and call value of the payoff model at the fixing date, omitted where the strike is None, '
  'strike 0 being a strike; without optionality (zero volatility or fixing on or before valuation) it is N tau (c + max(K, min(f, L))) for K<=L. '
  'Without model it is the fixed part, with a mere forward curve as model the float cashflow without options, and with no strikes it equals the plain rate cashflow.',
  ['inputs', 'histories'],
  'all schedules and parameters as in C19 with cap/floor strikes None, zero, negative or positive, all payoff models, all valuation dates, histories of re-setting model and fixed rate.',
  'the regression tests of contingent cashflows never compare values; unit tests cover one schedule.',
  [CO, PO, OP], [('ContingentRateCashFlowPayOff.details', PO)], ['ContingentRateCashFlowList.__getitem__'])
p('C21', 'Option cashflow lists and strategies are sums of model option values',
  'An option cashflow at pay date t equals N times the call (or put) value the payoff model gives for its strike at expiry t minus pay offset minus fixing offset; '
  'a strategy cashflow is the sum over all its calls and puts (scalar amounts meaning each). '
  'Both read the present state of the model at each evaluation, are linear in amounts, do not depend on option order, and more than 10 options per strategy raise KeyError.',
  ['inputs', 'histories'],
  'all lists of 1..30 pay dates with scalar or list amounts, strikes and put flags, all models, offsets and valuation dates, re-set models between reads.',
  'the regression tests of contingent cashflows never compare values.',
  [CO, PO], [('OptionCashFlowPayOff.details', PO), ('OptionStrategyCashFlowPayOff', PO)], ['OptionCashflowList.__getitem__', 'OptionStrategyCashflowList.__getitem__'])
p('C22', 'Option values equal the model formula and obey no-arbitrage bounds',
  'Call and put values of the intrinsic, normal (Bachelier), log-normal (Black76) and displaced log-normal models equal the exact expectation of the payoff under the model for the forward, volatility and time to expiry read from its curves at the expiry date '
  '(strike None meaning at the money), within the accuracy 1e-7 of the normal distribution used relative to the scale of forward and strike. '
  'Hence call - put = forward - strike exactly, values are at least intrinsic, fall (calls) resp. rise (puts) with strike, rise with volatility and time, and are intrinsic at zero volatility or at and after expiry.',
  ['inputs'],
  'all expiries, strikes, forwards, displacements (forward and strike plus displacement positive for log-normal), volatilities and curve kinds (functions, numbers, dcf curves) and day counts.',
  'model regression tests never compare values, unit tests only check zero volatility.',
  [OP, 'dcf/models/bachelier.py', 'dcf/models/black76.py', 'dcf/models/displaced.py', 'dcf/models/intrinsic.py', 'dcf/models/distibutions.py'],
  [('OptionPayOffModel.details/get_*_value', OP), ('normal_cdf', 'dcf/models/distibutions.py')], ['get_call_value', 'get_put_value'])
p('C23', 'Option greeks are the scaled derivatives of the option value',
  'Delta, gamma and vega of all models are the first and second forward and the first volatility derivative of the option value times their scale (gamma: delta scale squared), and theta the derivative in time to expiry times its scale, '
  'whether given analytically or, with bump_greeks or where no formula exists, as the documented finite difference. '
  'Put and call share gamma, vega and theta, put delta is call delta minus the delta scale, and without optionality delta is 0 or the scale and the others are 0. '
  'The same holds for formulas of the user, given as _call_price, as __call__ or by OptionPricingFormula.from_function, with or without own greeks.',
  ['inputs'],
  'all models and parameters as in C22 away from vanishing total volatility.',
  'bump greek tests are disabled; model regression tests never compare values.',
  [OP, 'dcf/models/bachelier.py', 'dcf/models/black76.py', 'dcf/models/displaced.py', 'dcf/models/intrinsic.py'],
  [('get_call_delta/gamma/vega/theta', OP)], ['get_call_delta', 'get_call_gamma', 'get_call_vega', 'get_call_theta', 'get_put_*'])
p('C24', 'Binary option models price the exercise probability',
  'The call value of the binary normal, log-normal and displaced models is the model probability that the forward ends above the strike, it lies in [0,1], does not rise with strike and equals minus the strike derivative of the plain model call, '
  'which the call spread model BinaryOptionPayOffModel returns for any strike shift as the difference quotient. '
  'Their delta, gamma and vega are the derivatives of that value, and put values are one minus call values. '
  'Without optionality (no volatility, or at and after expiry) and for the intrinsic model they are 0 below and 1 above the strike without greeks; '
  'the call spread model takes exactly those parameters from its inner model which are not given, zero being a given value.',
  ['inputs'],
  'all parameters as in C22, any strike shift, any subset of own parameters of the call spread model.',
  'the tests of binary models are disabled.',
  [OP, 'dcf/models/bachelier.py', 'dcf/models/black76.py', 'dcf/models/displaced.py'],
  [('Binary*OptionPayOffModel', 'dcf/models/black76.py'), ('BinaryOptionPayOffModel', OP)], ['get_call_value of binary models'])
p('C25', 'Present value is the discounted sum of the flows from valuation date on',
  'get_present_value equals the sum over all pay dates on or after the valuation date (default: the curve origin), that date included, of discount factor from valuation date times the cashflow at that date, past flows counting nothing. '
  'It is additive over legs and lists, linear in amounts, zero for empty lists, and for contingent lists the flows are those of the payoff model at the valuation date.',
  ['inputs', 'histories'],
  'all cashflow list types and nested legs, all interest rate curves, all valuation dates before, between, on and after pay dates, dates given in any order, repeated evaluation after changes.',
  'product regression tests fix one portfolio on one date.',
  [PR, CF, IR], [('get_present_value', PR)], ['dcf.get_present_value'])
p('C26', 'Yield to maturity reprices the cashflows',
  'get_yield_to_maturity returns the rate y inside the bounds for which discounting all flows on or after the valuation date (default: the list origin) with exp(-y tau) gives the given present value, up to the given precision in rate and value (or the resolution of floating point numbers). '
  'So it inverts pricing on a flat curve for every rate within the bounds, honours day counts given, and raises AssertionError if there is no such rate in the bounds.',
  ['inputs'],
  'all cashflow lists whose present value is monotone in the rate, notional 1e-3..1e9, rates over the whole bounds interval incl. negative, any bounds, valuation dates and date types.',
  'tests invert two or three rates for one bond.',
  [PR], [('_simple_bracketing', PR), ('get_yield_to_maturity', PR)], ['dcf.get_yield_to_maturity'])
p('C27', 'The fair rate reprices the rate cashflows',
  'get_fair_rate returns the fixed rate inside the bounds for which the present value of the rate cashflow list with this fixed rate on all cashflows equals the given value, up to precision, '
  'which without float flows is value divided by the annuity of the flows on or after the valuation date. '
  'The result does not depend on the fixed rates set before, which are restored, and AssertionError is raised if no such rate is in the bounds.',
  ['inputs', 'histories'],
  'all fixed, float and contingent rate cashflow lists, curves, valuation dates, target values, bounds and previous fixed rates.',
  'tests solve one par bond and one swap.',
  [PR], [('get_fair_rate', PR), ('_simple_bracketing', PR)], ['dcf.get_fair_rate'])
p('C28', 'Accrued interest is the elapsed share of the running coupon',
  'get_interest_accrued equals the sum over rate cashflows whose accrual period contains the valuation date of cashflow times tau(s,t)/tau(s,e), zero at the period start, linear in the elapsed year fraction and the full coupon at its end, counting a coupon paid on the valuation date. '
  'Fixed cashflows never accrue, legs add up, nothing accrues before the first start and after the last pay date, and contingent rate lists accrue their expected flow.',
  ['inputs'],
  'all rate, contingent rate and leg lists on float and date schedules with any notional, day count with additive year fraction, forward curve and valuation date; with pay offset valuation dates not between the end of a period and its later pay date.',
  'tests check four dates of one coupon leg.',
  [PR, PO], [('get_interest_accrued', PR)], ['dcf.get_interest_accrued'])
p('C29', 'BPV and bucketed deltas are exact shift differences that add up',
  'get_basis_point_value equals 0.0001 (v(r+s)-v(r))/s for the present values with the shift s added to the delta curve(s) everywhere, and each bucketed delta the same with the hat function of its grid point in place of s. '
  'The hats add up to the flat shift, so the present value sensitivity over all buckets equals the basis point value to first order, there is one bucket per grid point (default: the domain of the delta curve), and the curves are unchanged afterwards.',
  ['inputs', 'histories'],
  'all cashflow lists, discount and forward curves (one or several delta curves), ascending grids of 1..20 points not equal to the domain, curves without a spread of their own, shift sizes 1e-6..1e-2 of any sign, valuation dates.',
  'tests compare one bond and its buckets.',
  [PR, CU], [('get_basis_point_value', PR), ('get_bucketed_delta', PR), ('RateCurve.spread', CU)], ['dcf.get_basis_point_value', 'dcf.get_bucketed_delta'])
p('C30', 'Curve fit returns values that reprice all products',
  'get_curve_fit returns one value per fitting grid date such that the fitting curve type built from them (or with these points set) reprices every product to its given present value up to precision, if such values exist in the bounds and each grid date adds one product maturing there. '
  'So it recovers the curve which generated the prices, for zero rate, cash rate and volatility curves as fitting curve, and leaves all curves and products unchanged.',
  ['inputs'],
  'all sets of 1..8 products with strictly increasing maturities whose values are monotone in the value of the curve at their maturity, any initial curve values, notional size and price.',
  'tests fit one upward and one option curve.',
  [PR], [('get_curve_fit', PR), ('_simple_bracketing', PR)], ['dcf.get_curve_fit'])
p('C31', 'Pricing functions leave curves, models and cashflows as they were',
  'No valuation function (present value, yield, fair rate, accrued interest, basis point value, bucketed delta, curve fit) changes any observable state of its arguments: '
  'curve values, spreads, domains, fixed rates, payoff model and its valuation date, arguments lists are the same afterwards, and the same call repeated gives the same result. '
  'This also holds when the call ends with an exception raised at any point inside (by a curve, day count, model or payoff function, or as no solution exists).',
  ['fault_sequences', 'histories', 'inputs'],
  'all valuation functions over all lists and curves, all exception points: the k-th call of any user supplied callable fails, for every k, and every failing bracket.',
  'no test looks at the arguments after a call or makes one fail.',
  [PR], [('set/restore of spread, fixed_rate, valuation_date', PR)], ['all dcf.get_* functions'])
p('C32', 'Payment plans pay back exactly the planned total',
  'bullet, amortize and annuity plans of n payments sum to the amount and same and consumer plans to n times the amount resp. the amount plus n times rate interest; all have n entries. '
  'Annuity payments grow by factor 1+r, so that payment plus interest on the outstanding amount is the same in each period, and outstanding amounts are initial amount minus (or plus) the payments made before, the final one leaving zero.',
  ['inputs'],
  'all n in 1..400, amounts of any sign and size, rates from -50% to 100% incl. zero, plans of floats.',
  'tests sample few n and rates.',
  ['dcf/plans.py'], [('plans', 'dcf/plans.py')], ['dcf.plans.*'])
p('C33', 'Compounding and rate functions are inverse to each other',
  'simple, continuous and m-periodic compounding return 1/(1+r t), exp(-r t) and (1+r/m)^(-m t) and their rate functions invert them in r for all t; annual, semi-annual, quarterly, monthly and daily are periodic with m=1, 2, 4, 12, 365. '
  'All are 1 at t=0 or r=0, fall with rate and time, and for given positive rate order simple >= periodic >= continuous for t>=1/m multiples with periodic falling in m.',
  ['inputs'],
  'all rates with positive growth factors and all maturities t>0 (rates from -20% to 100%, t up to 60, m from 1 to 365), for the formulas and their inverses also negative maturities, and for simple compounding any growth factor 1+rt other than zero.',
  'tests check few rates with default accuracy.',
  ['dcf/compounding.py'], [('compounding', 'dcf/compounding.py')], ['dcf.compounding.*'])
p('C34', 'Rating classes represent their default probability faithfully',
  'A rating class keeps its value; on a master scale the weights of its vector are in [0,1], sum to 1, only the two neighbouring classes get weight, and value and weighted class values agree up to the 7 decimals used. '
  'The value of a class gives that class alone and its name, values outside the scale raise ValueError unless SLOPPY is set, keys are accepted as values, and class lists, dicts and tuples build ordered master scales.',
  ['inputs'],
  'all master scales (built-in and generated with 2..30 ascending probabilities at least 1e-5 apart) and all values inside and outside of them; classes which 7 decimals tell apart.',
  'all rating tests are disabled.',
  ['dcf/ratingclass.py'], [('RatingClass.__iter__', 'dcf/ratingclass.py')], ['RatingClass'])
p('C35', 'Products are built from legs which conserve notional and cover the term',
  'bond(...) is a leg list of a notional leg paying -N at start and N at end (or the given amortization plan, -sum first) and a coupon leg accruing the outstanding notional over adjacent periods from start to end, '
  'interest_rate_swap(...) two rate legs with notionals -N and N over the same term with their own periods, rates, curves and day counts. '
  'Coupon dates are the rolled schedule ending at the end date (adjusted by convention and holidays), strictly after start; so bond flows at coupon rate r discounted at a flat simple rate r per period are worth zero at start.',
  ['inputs', 'configurations'],
  'BusinessDate terms with period tenors (end dates may be periods from start) and float and datetime.date terms with numeric resp. timedelta periods, any notional or amortization plan, explicit day count function (or None), offsets; float periods of any size (also 1/12 or 0.1: no stub just by rounding), rolled coupon dates that do not fall together.',
  'product tests fix one term; float products are not tested.',
  [PD, CF], [('_interest_payment_dates', PD), ('bond', PD), ('interest_rate_swap', PD)], ['dcf.bond', 'dcf.interest_rate_swap'])

p('C36', 'Curve integrals are exact averages and derivatives are slopes',
  'integrate(a, b) of a date curve is the integral of the curve over the period divided by its year fraction: the exact average of the interpolated function, within the accuracy of the quadrature, and for rate curves the rates with their spread. '
  'It lies between the extremes of the curve on the period for linear curves, is the same with a and b swapped, linear in the function applied to the values, exact for constant functions, and adds up over adjacent periods; '
  'derivative(a) is the slope of the curve where it is linear on the next day.',
  ['inputs'],
  'date, zero rate and instantaneous volatility curves with linear, zero-extrapolated linear and constant interpolation, 1..6 points at least 90 days apart, any periods of up to 20 years inside and outside of the points (accuracy 5e-4 of the largest value, 3e-3 where the curve jumps); derivative on BusinessDate.',
  'no test calls integrate or derivative of a curve directly.',
  [CU, VO], [('DateCurve.integrate', CU), ('DateCurve.derivative', CU)], ['DateCurve.integrate', 'DateCurve.derivative'])
p('C37', 'Reading never changes anything: results do not depend on what was read before',
  'Of two equally built markets of curves, models, fx containers, cashflow lists, ratings and plans which get the same changes, one being read, valued and printed all the time and the other never, '
  'every read returns the same value (or raises the same type of error), whatever was read before and in whatever order, and repeating a read repeats its value. '
  'So there is no stale cache, no state left behind by evaluating, and a change is seen by the very next read.',
  ['histories', 'configurations'],
  'all public reads and valuations of all curve types, option models, FxContainer, cashflow lists and legs, pricer functions, rating classes, mixed with all public changes (points, fixings, spreads, model parameters, forward curves, origins, vectors, re-adding of currencies).',
  'tests evaluate objects once after building them.',
  ['dcf'], [('caches: forward curve, payoff model and details', 'dcf'), ('Curve._update', CU)], ['all public reads'])
p('C38', 'Valuations depend on year fractions only, not on where the calendar stands',
  'A market (curves with any day count, model, fx container, all kinds of cashflow lists, legs) moved as a whole by any number of days, given in the other date type, or given as plain year fractions from any start '
  'has the same discount factors, rates, forecasts, cashflows, present values, basis point values, buckets, accrued interest, yields, fair rates, curve fits, option values and greeks, tables and fx rates; a market which fails to solve does so everywhere.',
  ['inputs', 'configurations'],
  'generated markets with additive day counts, BusinessDate and datetime.date between 1950 and 2150, tenors in days, moves from -3333 to 10000 days (leap days, year 2000 and 2100), year fraction images starting at 0, negative or 2020.5.',
  'tests use one date (often today) and one date type each.',
  ['dcf'], [('day_count', 'dcf/daycount.py'), ('DateCurve.day_count', CU), ('get_interest_accrued', PR)], ['all valuations'])
p('C39', 'Failing changes and refused arguments leave all objects as they were',
  'An assignment to a curve which raises at any point (the k-th call of the day count function for every k, invalid value or date, second spread), a failing cast, arithmetic, fixing or add to an FxContainer leaves the object and its arguments exactly as before and usable. '
  'Arguments which make no object (unequal lengths, values a log interpolation cannot take, data for a cast, legs, notionals and ratings of other types, unknown pairs) raise.',
  ['fault_sequences', 'inputs'],
  'all curve types and FxContainer in any state, each callback call of an assignment failed once, finite spot rates.',
  'no test makes a user callback fail; few error paths are tested.',
  [CU, FX, CF, 'dcf/ratingclass.py'], [('DateCurve.__setitem__', CU), ('FxContainer.add', FX)], ['Curve.__setitem__', 'FxContainer.add', 'constructors'])

p('C40', 'Cashflow tables show the true components of every cashflow',
  'The table of a cashflow list has one header row of its documented columns in their order and one row per pay date in the order of the domain, whose cashflow is the cashflow of the list and whose components are those of its payoff: '
  'notional, accrual start and end, year fraction, fixed rate, forward rate, fixing date and tenor of rate cashflows, floorlet and caplet with strike and volatility, put/call, long/short, strike and expiry of options, '
  'the same for each option of a strategy ordered by strike, and forward, volatility, time to expiry and valuation date of the model. '
  'The components of a row give its cashflow by the formula of its type, columns of curves, models and strikes which are not there do not show up, and tables are new objects of the present state.',
  ['inputs', 'histories'],
  'all cashflow list types with any dates, amounts, offsets, day counts, forward curves and payoff models as generated for C19-C21, with re-set curves, models and fixed rates.',
  'tests print or count tables of few lists; no test compares components with the cashflow.',
  [CF, CO, PO, OP], [('CashFlowList.table', CF), ('CashFlowPayOff.details', PO), ('OptionPayOffModel.details', OP)], ['CashFlowList.table', 'payoff.details'])
p('C41', 'Printed curves and lists show their content and build it again',
  'The str of a curve or cashflow list names its type, first and last date and their values, the repr of a curve names type, all points, values and parameters, and evaluated as an expression it builds a curve with the same type, points, origin, parameters and values everywhere '
  '(parameters being numbers, names, dates or periods). The same for repr and kwargs of plain cashflow lists; prices and fx rates show value and origin.',
  ['inputs'],
  'all curve types of 1..6 points with any interpolation name, origin, tenor and yield, without callable arguments; all cashflow list types, prices and fx rates.',
  'two doctests show the text of one curve each.',
  [CU, CF], [('Curve.__repr__', CU), ('Curve.__str__', CU), ('Curve.kwargs', CU), ('CashFlowList.__repr__', CF)], ['repr', 'str', 'kwargs'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, (x['id'], len(x['title']))
            f.write(json.dumps(x) + '\n')
    print(len(P))

NA='A pure function of its arguments: no schedule, clock, I/O, fault, party or history can change its result, so a simulator has nothing to control and simulation would only be random unit testing.'
prop('N01','Fixed-point arithmetic is exact to its last digit','Adding, subtracting, multiplying and dividing decimal numbers gives the exact result rounded in the direction the operation names, or an error when it does not fit, never a silently wrong number.',['inputs'],'every pair of operands, scale and sign','The tests sample a few dozen operand pairs.',[S+'decimal.rs'],[('Decimal arithmetic','decimal.rs')],claim=False,reason=NA+' Its effect on the pool is covered by E02-E08.')
prop('N02','Square root, power and logarithm stay within their stated error','The square root, integer power, fractional power and logarithm of a decimal number are within a stated distance of the true value over their whole domain, monotone, and refuse arguments outside it.',['inputs'],'every argument of the domain','The tests sample a few arguments.',[S+'decimal.rs'],[('sqrt, pow, ln','decimal.rs')],claim=False,reason=NA)
prop('N03','Decimal conversion and formatting round-trip','Converting a decimal number to text, to an integer or to another scale and back gives the same number whenever it is representable, rounding as named otherwise.',['inputs'],'every number, scale and format','The tests sample a few numbers.',[S+'decimal.rs'],[('scale changes and conversions','decimal.rs')],claim=False,reason=NA)
prop('N04','Curve formulas are mutually inverse','The formulas that give amounts from liquidity, liquidity from amounts and price moves from amounts are each other\'s inverses up to rounding in the pool\'s favour.',['inputs'],'every amount, liquidity and price range','The tests sample a few values.',[DM,FM],[('PoolMath','cl_math.rs')],claim=False,reason=NA+' Their composition over pool histories is covered by E02, E05 and E06.')
prop('N05','Tick and price conversions are inverse and monotone over the whole range','Every supported tick has one price, prices grow strictly with ticks, and converting a price back gives the tick whose interval contains it.',['inputs'],'every supported tick and price','The tests sample a few ticks.',[DM,FM],[('tick_to_rp, rp_to_tick','cl_math.rs')],claim=False,reason=NA+' The coherence of tick and price in reachable pool states is covered by E11.')

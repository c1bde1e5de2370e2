#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

F32, F64, FX, INT, FL = "src/float_impl/f32_impl.rs", "src/float_impl/f64_impl.rs", "src/fixed_impl.rs", "src/int_impl.rs", "src/float_impl.rs"
TRIG, ATAN, SQRT = "src/trigonometry.rs", "src/trigonometry/atan.rs", "src/trigonometry/sqrt.rs"
OPS, CART, POL, FMT = "src/complex/ops.rs", "src/complex/cartesian_impl.rs", "src/complex/polar_impl.rs", "src/complex/cartesian_impl/num_complex_impl.rs"

prop("C01", "Conversions between real number types give the exactly defined result",
  "Converting a number between any two supported real types, in either direction, gives the value the language's `as` cast defines for integers and floats (truncation, saturation, NaN to zero, wrap-around between integers). A float to fixed point and fixed point to a float round to the nearest, ties to even; fixed point to an integer rounds toward minus infinity.",
  ["inputs", "configurations"], "every value of every source type and every pair of source and target type, as long as the result fits the target",
  "the tests convert one or two numbers for a handful of the 2464 ordered pairs of types; the conversions are instantiated per pair by macros, so each pair can be wrong by itself",
  [INT, FL, FX, "src/traits.rs"], [("conversion macro for integers", INT + ":3"), ("conversion macros for floats", FL), ("conversion macro for fixed point", FX + ":4")],
  ["MixedNumConversion::mixed_from_num", "MixedNumConversion::mixed_to_num"],
  "exhaustive state enumeration of conversion machines against an exact rational model", "8/16-bit sources complete; 32 to 128 bit sources and floats on a lattice of short significands, sparse bit patterns, neighbours of powers of two and rounding ties; trusts the exact arithmetic of the harness")

prop("C02", "Conversions between real and complex numbers keep the components",
  "Converting a real number to a complex one, through every way offered, gives that real part, or magnitude, converted as between the real types, and an imaginary part or angle of zero. Converting a complex number to a real one gives its converted real part, and converting between complex numbers of different component types converts both components independently.",
  ["inputs", "configurations"], "every pair of component types and every pair of component values that fit the target",
  "tests sample a few values for a few component types; the conversions exist for more than a thousand pairs and a swapped or dropped component shows only for operands that distinguish the two",
  [CART, POL, FX, FL, "src/traits/complex_traits.rs"], [("complex conversion", CART), ("polar conversion", POL), ("real from complex", FX + ":18")],
  ["MixedNumConversion between Cartesian, Polar and real types", "Cartesian::from / new / mixed_to_complex"],
  "exhaustive state enumeration of conversion machines against a component-wise exact model", "all pairs over an alphabet of 60 to 300 values per component type, that contains all boundaries; all pairs of types")

prop("C03", "Constants, limits and identities are those of the type",
  "The constants of every supported type are right: zero and one, pi and twice pi rounded or truncated to the type, the largest and the lowest value of the type. Adding zero, or multiplying by one, leaves every real and complex value of the type unchanged.",
  ["inputs", "configurations"], "every supported type, and every value of it for the identities",
  "tests read the constants of a few types only; whether zero and one are identities is a statement about all values",
  [INT, FL, FX, CART, POL, "src/traits.rs"], [("constants of fixed point", FX + ":101"), ("limits of integers", INT + ":76"), ("complex zero and one", CART)],
  ["mixed_zero, mixed_one, mixed_pi, mixed_tau, mixed_max_value, mixed_min_value"],
  "exhaustive state enumeration against exact constants and identities", "all 238 types; identities on complete 8/16-bit types and lattices for the others")

prop("C04", "Sign and absolute value follow from the comparison with zero",
  "The sign of a number is minus one below zero and one otherwise, zero included. The predicates for positive and negative follow the comparison with zero for signed integers and fixed point (zero is neither), the sign bit for floats, and unsigned numbers are always positive and never negative. The absolute value is the number, or below zero its exact negation, and keeps NaN.",
  ["inputs", "configurations"], "every value of every type, except the absolute value of the lowest two's complement value",
  "tests look at one or two values of some types; signs go wrong at zeros, extremes and NaN",
  [INT, FL, FX, TRIG], [("sign and predicates of integers", INT + ":86"), ("of fixed point", FX + ":186"), ("of floats", FL), ("generic sign", TRIG + ":25")],
  ["mixed_sign, mixed_is_positive, mixed_is_negative, mixed_abs, trigonometry::sign"],
  "exhaustive state enumeration against exact comparison", "8/16-bit types complete, f32 with 16-bit significands (thorough: all), lattices elsewhere")

prop("C05", "Raising to an integer power is repeated multiplication",
  "Raising a real number to an integer power gives the exact power for integers, and for fixed and floating point the real power within the rounding error of those multiplications, in whatever order; the power zero gives one. Negative powers are the reciprocal, truncated in integers and fixed point.",
  ["inputs", "configurations"], "every base and exponent whose power, and for fixed point every factor of it, the type can hold",
  "tests raise small positive bases to the powers 0 to 4; wrong signs, the number of factors, negative exponents and overflow at the edge need other operands",
  [TRIG, INT, FX, FL], [("generic power", TRIG + ":219"), ("signed exponents", TRIG + ":236")],
  ["mixed_powi, trigonometry::powi"],
  "exhaustive state enumeration against exact integer powers", "exponents -70 to 70 and selected ones up to 65537; bases complete for 8-bit types, short and sparse bit patterns otherwise")

prop("C06", "Wrapping a phase gives the equivalent angle in [-pi, pi) and is idempotent",
  "Wrapping a phase terminates and gives an angle between minus pi and pi that differs from the argument by a whole number of turns, within the rounding of the type; the upper end itself is wrapped to the lower one. A phase already in that range comes out unchanged, so wrapping twice equals wrapping once.",
  ["inputs"], "every finite phase of the signed fixed point types and floats, also those thousands of turns away or next to an odd multiple of pi",
  "tests wrap a handful of angles within two turns; termination, the ends of the interval and large angles are outside of them",
  [TRIG, FX, FL], [("phase wrapping", TRIG + ":176")], ["mixed_wrap_phase, trigonometry::wrap_phase"],
  "exhaustive state enumeration, wrap taken as a transition twice, against exact arithmetic in units of pi", "8/16-bit fixed point complete, f32 complete in the thorough tier, lattice and neighbourhoods of multiples of pi/2 otherwise")

prop("C07", "Square roots have the accuracy they are documented to have",
  "The square root of floating point numbers is correctly rounded, NaN below zero. The iterative square root is within 0.1 % with the default two iterations, within 5 % with one, and better with every further iteration, plus a few units in the last place, for every non-negative number of every fixed and floating point type; the root of zero is zero and that of infinity infinity.",
  ["inputs", "configurations"], "every non-negative operand, one to six iterations, all 224 fixed point types and both float types",
  "tests check fewer than twenty operands in four types; the first guess comes from tables by ranges of the normalized operand, each of which can be wrong on its own",
  [SQRT, FX, F32, F64], [("iterative square root and its table", SQRT + ":60")], ["mixed_sqrt, mixed_niirf, trigonometry::sqrt::niirf"],
  "exhaustive state enumeration against correctly rounded roots and the error model of the method", "8/16-bit types complete; f32 complete in the thorough tier; wider types lattice and neighbourhoods of the table boundaries")

prop("C08", "The polynomial arctangents are within 0.3 degrees of the angle",
  "The polynomial two-argument arctangent is within 0.3 degrees, plus a few units in the last place, of the true angle of the point, in all quadrants, on the axes and for every ratio of the arguments. The polynomial arctangent of one argument is within 0.3 degrees of the true one, both through types and as free functions.",
  ["inputs", "configurations"], "every pair of finite operands except the lowest two's complement value, in all signed fixed point types and floats",
  "tests take about ten points on the unit circle; overflow for large operands and errors in single octants are outside of them",
  [ATAN, FX, F32, F64], [("polynomials by octant", ATAN + ":15"), ("quadrant selection", ATAN + ":79")], ["mixed_atan2_poly, trigonometry::atan::{atan, atan2}"],
  "exhaustive state enumeration against the exact angle", "8-bit pairs complete; all pairs over a lattice otherwise, 2^18 ratios in every octant for floats")

prop("C09", "The polynomial sine and cosine are within 4e-6 of the true ones",
  "The polynomial sine is within 4e-6, plus a few units in the last place, of the true sine for every argument in [-pi, pi), and the polynomial cosine of the true cosine for every argument, up to the error of the type's pi per turn wrapped. The sine of zero is zero.",
  ["inputs", "configurations"], "every argument in the range, in all signed fixed point types and floats",
  "tests take five arguments in two types; the quadrant handling differs by range of the argument and the powers overflow in narrow types",
  [TRIG], [("sine series and folding", TRIG + ":69"), ("cosine as shifted sine", TRIG + ":141")], ["trigonometry::sin, trigonometry::cos"],
  "exhaustive state enumeration against double precision sine and cosine", "8/16-bit types complete, f32 grid of 2^24 (thorough 2^30), lattices and even grids otherwise")

prop("C10", "Elementary functions of floats are accurate to a few units in the last place",
  "Sine, cosine, both at once, tangent, their inverses and the two-argument arctangent, the hyperbolic functions and their inverses, exponentials and logarithms to the bases e, 2 and 10, the cube root and the power function of f32 and f64 agree with the mathematical function to within 2 to 8 units in the last place. Outside of a function's domain they give NaN, and at its poles and infinities the limits that IEEE 754 and C define.",
  ["inputs"], "every float, including infinities, subnormals and NaN; every pair of floats for the functions of two arguments",
  "tests take one or two arguments per function and compare a few decimals; each of the functions is forwarded separately, and one can be wrong in a sub-range only",
  [F32, F64], [("f32 functions", F32 + ":3"), ("f64 functions", F64 + ":3")], ["the function traits of f32 and f64"],
  "exhaustive state enumeration against an independent libm, errors in units in the last place", "f32: 2^24 values per function, all 2^32 in the thorough tier; f64: short significands at every exponent and neighbourhoods; trusts glibc to one unit in the last place")

prop("C11", "Floor and ceiling of floats are the neighbouring integers",
  "The floor of a float is the largest integer not above it, the ceiling the smallest integer not below it; integers, infinities and NaN come out unchanged.",
  ["inputs"], "every float", "tests take two numbers; halves, negative fractions, numbers near 2^23 and signed zeros are outside of them",
  [F32, F64], [("floor and ceiling", F32 + ":123")], ["mixed_floor, mixed_ceil"],
  "exhaustive state enumeration against integer arithmetic", "f32: 2^28 values (thorough: all 2^32); f64: short significands at every exponent and neighbours of whole and half numbers")

prop("C12", "Fixed point trigonometry is accurate to tens of units in the last place",
  "Sine, cosine, both at once, arctangent and two-argument arctangent of signed fixed point numbers are within 32 units in the last place of the true value, plus the error of the type's pi per turn wrapped, and return promptly for every argument. Arcsine and arccosine are so too, up to the loss where they are steep, and arguments beyond one give the value at one.",
  ["inputs", "configurations"], "every argument (pairs without the lowest value) of every signed fixed point type",
  "tests take a handful of arguments in three of the 112 types; the result depends on the widths of the type and on the quadrant",
  [FX, TRIG], [("sine and cosine", FX + ":261"), ("arcsine, arccosine", FX + ":276"), ("arctangents", FX + ":309")], ["mixed_sin, mixed_cos, mixed_sincos, mixed_asin, mixed_acos, mixed_atan, mixed_atan2 of fixed point types"],
  "exhaustive state enumeration against double precision with the error model of the iterations", "8-bit pairs and 16-bit arguments complete, lattices, multiples of pi/4 and an even grid over the circle for wider types; double precision limits types with more than 50 fractional bits")

prop("C13", "The fixed point exponential is accurate to its roundings",
  "The exponential of a signed fixed point number is within the accumulated rounding of the type (about two units in the last place per fractional bit, relative to the result) of the true exponential, whenever the type can hold it. It is one at zero, and goes to zero for very negative arguments, promptly.",
  ["inputs", "configurations"], "every argument with a representable exponential in every signed fixed point type",
  "tests take six arguments in one type", [FX], [("exponential", FX + ":348")], ["mixed_exp of fixed point types"],
  "exhaustive state enumeration against the double precision exponential", "8/16-bit types complete, lattice and even grid over [-50, 50) for wider types")

prop("C14", "Decibel conversions are the logarithms they are named after, and invert",
  "Magnitudes convert to 20 and powers to 10 times their decimal logarithm, and decibels back to the magnitude or power, with a relative error of a few units in the last place of the level. Converting there and back gives the number again.",
  ["inputs"], "every float", "tests take two numbers; the two scales are easily mixed up for one direction or one type",
  ["src/traits/math_traits.rs", FL, F32, F64], [("decibel conversions", FL)], ["mixed_mag2db, mixed_db2mag, mixed_pow2db, mixed_db2pow"],
  "exhaustive state enumeration against double precision logarithms", "f32: 16-bit significands (thorough: all); f64: short significands at every exponent")

prop("C15", "Complex addition and subtraction work on each component by itself",
  "Adding or subtracting complex numbers adds or subtracts their real and their imaginary parts exactly, and a real operand of any supported type is converted and changes the real part only. The operators, their in-place forms and the named functions, for all kinds of operands, give the same result.",
  ["inputs", "configurations"], "all components, all pairs of component and scalar types, and each of the 26 ways, as long as the sums fit",
  "tests add numbers with equal or small parts for a few types; taking one component from the wrong place shows only for distinguishing operands",
  [OPS, CART], [("operators", CART), ("named functions", OPS)], ["+, -, +=, -= and ops::{add, sub}"],
  "exhaustive state enumeration over all ways to add against an exact model", "all combinations over an alphabet per type with extremes; all pairs of types")

prop("C16", "Complex multiplication gives the product, in every form",
  "The product of complex numbers is (ac - bd) + (ad + bc)i, exactly for integers, within two units in the last place for fixed point and the error of the format for floats; a real factor of any supported type is converted and scales both parts. The operator, its in-place form and the named function, with cartesian, polar or real operands, agree.",
  ["inputs", "configurations"], "all components and types for which the partial products fit",
  "tests multiply a few small numbers; sign and component errors cancel for special operands",
  [OPS, CART, POL], [("operators", CART), ("named functions", OPS)], ["*, *= and ops::mul of Cartesian with Cartesian, Polar and real types"],
  "exhaustive state enumeration over all ways to multiply against an exact model", "all combinations over an alphabet per type; thorough: all 2^32 pairs of 8-bit complex numbers")

prop("C17", "Complex division gives the quotient, and division by scalar zero saturates",
  "The quotient of complex numbers is (ac + bd)/(cc + dd) + (bc - ad)/(cc + dd) i, truncated for integers, within the rounding of numerator and denominator for fixed and floating point; a real divisor of any supported type is converted and divides both parts. Dividing by a real zero gives the largest value of the component type in both parts, and every form of the division agrees.",
  ["inputs", "configurations"], "all components and types for which the products fit, divisor not complex zero",
  "tests divide a few numbers of mostly equal parts; mistakes in one component of the divisor do not show there",
  [OPS, CART], [("operators", CART), ("named functions", OPS)], ["/, /= and ops::div of Cartesian with Cartesian and real types"],
  "exhaustive state enumeration over all ways to divide against an exact rational model", "all combinations over an alphabet per type; thorough: all 2^32 pairs of 8-bit complex numbers")

prop("C18", "Polar and cartesian form are two views of the same number",
  "Converting between the forms, by conversion, constructor, accessor or free function, gives the magnitude and angle of the point or the cosine and sine of the angle times the magnitude, within the error of the component type's square root and trigonometry. Converting there and back gives the number again, and all ways agree.",
  ["inputs", "configurations"], "every complex number in either form whose squared magnitude the type can hold",
  "tests convert a few points of the unit circle; quadrants, magnitudes far from one and narrow types are outside",
  [CART, POL, OPS, "src/traits/complex_traits.rs"], [("accessors and conversions", CART), ("polar", POL)], ["to_polar, to_cartesian, mag, abs, arg, ang, re, im, new_from_polar, new_from_cartesian"],
  "exhaustive state enumeration of conversions and round trips against double precision", "8-bit component types complete, alphabets with even grids and powers of two for the others")

prop("C19", "Polar arithmetic multiplies magnitudes and adds angles",
  "Multiplying polar numbers, or a polar and a cartesian one, multiplies the magnitudes and adds the angles, and is zero with angle zero if a polar factor has magnitude zero. A real factor multiplies and a real divisor divides the magnitude and leaves the angle; dividing by zero gives the largest magnitude.",
  ["inputs", "configurations"], "every pair of operands whose magnitudes and angle sums the type can hold",
  "tests take a few operands per operator; the zero cases and mixed forms are hardly touched",
  [POL, OPS], [("polar operators", POL)], ["* and / of Polar with Polar, Cartesian and real types"],
  "exhaustive state enumeration against an exact model of magnitude and angle", "all combinations over an alphabet per type")

prop("C20", "Conjugation negates the imaginary part or the angle, and nothing else",
  "The conjugate of a complex number has the same real part and the negated imaginary part, in polar form the same magnitude and the negated angle, and conjugating twice gives the number again. Conjugating into the other form gives the conversion of that.",
  ["inputs", "configurations"], "every complex number in either form without the lowest two's complement value",
  "tests conjugate one or two numbers", [CART, POL, OPS], [("conjugate", CART), ("polar conjugate", POL)], ["conj"],
  "exhaustive state enumeration against exact negation", "8-bit component types complete, alphabets with extremes for the others")

prop("C21", "Complex exponentials and powers follow Euler's and de Moivre's formulas",
  "The exponential of a + bi is e^a (cos b + i sin b), and the n-th power of a complex number has the n-th power of the magnitude and n times the angle, within the accumulated error of the component type's functions. The power zero is one and the power one the number itself, up to that error.",
  ["inputs", "configurations"], "every complex number and exponent for which the values on the way are representable",
  "tests take one or two numbers in one type", [CART, OPS], [("exponential and power", OPS), ("trait implementations", CART)], ["mixed_exp, mixed_powi of Cartesian, ops::powi"],
  "exhaustive state enumeration against double precision in polar form", "8-bit component types complete, alphabet and even grid for the others; exponents to 8 (thorough 32)")

prop("C22", "Formatting a complex number spells both components, and reports sink errors",
  "A complex number is formatted as its real part and its imaginary part with their signs and an i, in every formatting trait, with the prefix, sign and precision asked for, each magnitude spelled as its type does; with the standard library, it is right-aligned to the width asked for. An error of the sink, after whatever number of bytes, is returned.",
  ["inputs", "configurations", "fault_sequences"], "every complex number, formatting trait and specification without fill, and every byte at which the sink fails",
  "tests print two numbers in decimal; signs of zeros, the other bases, specifications and errors of the sink are untested",
  [FMT, POL], [("formatting macros", FMT)], ["Display, Binary, Octal, LowerHex, UpperHex, LowerExp, UpperExp of Cartesian, Display of Polar, with and without feature std"],
  "exhaustive enumeration of values, specifications and sink fault points against a text model", "8-bit component types complete; sinks failing at every byte; both feature configurations; the component type's own formatting of non-negative numbers is trusted; one listed finding")

prop("C23", "Results depend on the operands only, along every history of operations",
  "A chain of in-place and ordinary complex operations on one number gives, after every step, exactly what the same steps give in exact complex arithmetic, as long as that is representable. The result of no call depends on which calls came before it.",
  ["histories", "inputs"], "every sequence of up to four (thorough: five) of 184 operations, and every sequence of three (thorough: four) of a hundred calls",
  "tests apply single operations to fresh operands; in-place operators that read a component already overwritten, and state kept between calls, show only in sequences",
  [CART, OPS, POL, TRIG, SQRT, FX], [("in-place operators", CART)], ["all operators and functions, in sequence"],
  "breadth-first explicit-state search over operation histories, every edge checked against exact Gaussian arithmetic", "canonical states hashed exactly; depth 4 (5 thorough); call sequences of length 3 (4)")

prop("C24", "Every operation returns, for every float without panicking, and NaN stays NaN",
  "Every operation on floats and on complex numbers of floats returns for every operand, infinities, NaN and subnormals included, without panicking, and gives NaN for a NaN operand unless the result does not depend on it. Fixed point operations return, or panic by overflow, in bounded time.",
  ["inputs", "configurations"], "every operand or pair of operands of every operation",
  "tests use ordinary operands only; loops that do not end and panics need extreme ones",
  [FL, F32, F64, FX, TRIG, SQRT, ATAN, CART, POL], [("loops", TRIG + ":176"), ("iterations of the square root", SQRT + ":60"), ("exponential", FX + ":348")], ["all operations"],
  "exhaustive state enumeration with a watchdog on every transition", "f32: 2^22 values per operation (thorough 2^30), special values in all combinations for several operands, 8/16-bit fixed point complete")

prop("C25", "Operations and their inverses undo each other",
  "A function followed by its inverse gives the argument again, within the rounding of the result in between: exponentials and logarithms, trigonometric and hyperbolic functions and their inverses, roots and powers. So do complex addition and subtraction, multiplication and division, conversion to polar form and back, and conversion to a type that can hold the number and back.",
  ["inputs", "histories"], "every argument in the range where the function is one-to-one and the number in between is representable",
  "tests look at each function by itself", [F32, F64, FX, CART, POL, OPS], [("functions", F32), ("operators", CART)], ["pairs of operations"],
  "exhaustive enumeration of two-step histories against the identity", "8-bit fixed point complete, alphabets and lattices otherwise")

prop("C26", "Complex numbers compare by components, copy exactly and have a fixed layout",
  "Two complex numbers in one form are equal when both components are. They are ordered by the first component, and where that is equal by the second; NaN is unordered. Copies, clones and defaults are exact, and in memory a complex number is its two components one after the other, the real part or magnitude first.",
  ["inputs", "configurations"], "every pair of complex numbers of every component type, in both forms",
  "the tests compare equal numbers only, and never order or reinterpret them; order and layout are derived, and change silently with the order of the fields",
  ["src/complex.rs"], [("complex number types", "src/complex.rs:12"), ("their derived traits", "src/complex.rs")],
  ["PartialEq, PartialOrd, Clone, Copy, Default and the memory of Cartesian and Polar"],
  "exhaustive state enumeration against exact component-wise comparison", "8-bit component types complete with all neighbours; all pairs over an alphabet with extremes, zeros, infinities and NaN otherwise")

prop("C27", "All ways to write an operation give the identical result",
  "The operators by value, by reference and in place, with this crate's or the num crate's complex numbers, the trait methods and the free functions for one operation all give the same result to the last bit. So do sums and products with their operands exchanged, sine and cosine taken together or apart, powers as method or function, and the operations between the two forms of complex numbers when converted by hand first.",
  ["inputs", "configurations"], "every operand of every supported type, as long as the operation has a result",
  "the tests try one or two spellings of an operation on one pair of numbers; each spelling is its own implementation, stamped out by macros, and can differ in a rounding or for special operands",
  [CART, POL, OPS, TRIG, FX, FL], [("operators", CART + ":173"), ("in-place operators", CART + ":246"), ("free functions", OPS)], ["all operators, traits and functions that express the same operation"],
  "exhaustive state enumeration, every spelling of an operation taken from the same state and compared", "26 operations with 2 to 14 spellings; 8-bit types complete for one and two components; alphabets otherwise; floats with infinities and NaN")

prop("C28", "Symmetric operations are exactly symmetric",
  "For floats, sine, tangent, their hyperbolic counterparts, the inverses of all of these, the cube root, odd powers, the phase wrap and the two-argument arctangent in its first argument are exactly odd, cosines and even powers exactly even, and floor and ceiling mirror each other. Conjugating or negating the operands of complex arithmetic, exponentials and conversions of floats and integers does exactly that to the result. The magnitude does not depend on signs or the order of the components, in any type.",
  ["inputs"], "every float, and every pair of complex numbers of floats and integers; every complex number of fixed point for the magnitude",
  "the tests never evaluate a function at two mirrored points; a branch for negative operands that is slightly off stays within the decimals they compare",
  [F32, F64, TRIG, ATAN, CART, OPS], [("functions", F32), ("complex arithmetic", OPS + ":121"), ("magnitude", OPS + ":35")], ["functions and complex operations at mirrored operands"],
  "exhaustive state enumeration, each transition compared with that from the mirrored state", "f32: 2^24 values per function, all 2^32 in the thorough tier; f64: short significands; alphabets for complex operations; the sign of zeros is left open")

prop("C29", "Results keep to their function's range and to the order of the arguments",
  "Sines, cosines and hyperbolic tangents of floats never leave [-1, 1], inverse trigonometric functions, exponentials, roots and hyperbolic cosines their ranges, wrapped phases [-pi, pi], magnitudes are never negative, at least the largest part and at most the sum of the parts, and the angle of a complex number is in [-pi, pi] and in the quadrant of the number. Fixed point sine, cosine and inverses stay in their ranges within their rounding, absolute values, roots and exponentials are never negative and wrapped phases in [-pi, pi). Square root, absolute value, floor, ceiling and sign of floats are monotone, and the other monotone functions and the powers never fall by more than their rounding.",
  ["inputs"], "every float and its successor, every state of complex numbers, and every fixed point number in the stated alphabets",
  "a result just outside the range makes the next step (an arcsine of a sine, a square root of one minus a square) invalid, and a step down where two branches meet is only seen at the two neighbouring arguments",
  [F32, F64, TRIG, ATAN, SQRT, FX, CART], [("functions of floats", F32), ("functions of fixed point", TRIG), ("angle", ATAN)], ["functions at every state and at its successor"],
  "exhaustive state enumeration, each state and its successor checked against invariants", "f32: 2^24 states per function, 2^29 in the thorough tier, each with its successor; f64: short significands; fixed point: all values of narrow types, alphabets of wide ones")
prop("C30", "Arithmetic laws and functional equations hold",
  "Complex addition and multiplication are associative and distributive, subtraction undoes addition, a number times its conjugate is the square of its magnitude, zero, one and the imaginary unit act as such, and quotients follow the rules for fractions, exactly for integers where nothing overflows and within rounding otherwise; polar products are associative. The functions of floats satisfy their functional equations within rounding: the Pythagorean and addition theorems, the laws of exponents, logarithms and roots, those of hyperbolic functions and decibels, and the relations between inverse functions. Those of fixed point do for the squares of sine and cosine, the sum of arcsine and arccosine and the arctangents of a number and its reciprocal.",
  ["inputs"], "every triple of complex numbers and every pair of arguments in the stated alphabets, every type",
  "the tests compare single results with constants; the operations have to be consistent with each other for all operands",
  [F32, F64, INT, FX, TRIG, ATAN, CART, POL, OPS], [("complex arithmetic", OPS), ("functions", F32)], ["operations composed in the two ways the law equates"],
  "exhaustive state enumeration of triples and pairs, the two sides of every law computed by the real code and compared", "alphabets of six components for triples and of pairs of arguments; error bounds from the condition of the law")

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
          anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'] if isinstance(p['observe'], list) else [p['observe']], hook_needed=None))) + '\n')
checks = [dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}", evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level="model_checking", level_note=p['note']) for p in P]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=[], notes="Bounded exhaustive enumeration of the real code's transitions against reference models; see DESIGN.md. No hooks: everything is observed through the public interface."), open('/verif/MANIFEST.json', 'w'), indent=1)
for p in P:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, p['id']

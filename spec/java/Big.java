import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** Natural numbers of any size for the specifications, as strings of decimal digits. TLC's own integers have 32 bits. */
public class Big {
	private static final BigInteger TWO = BigInteger.TWO;

	private static BigInteger n(Value v) {
		return new BigInteger(((StringValue) v).val.toString());
	}
	private static Value s(BigInteger x) {
		return new StringValue(UniqueString.uniqueStringOf(x.toString()));
	}
	public static Value BNat(IntValue k) {
		return s(BigInteger.valueOf(k.val));
	}
	public static Value BAdd(Value a, Value b) {
		return s(n(a).add(n(b)));
	}
	/** Not below zero. */
	public static Value BSub(Value a, Value b) {
		return s(n(a).subtract(n(b)).max(BigInteger.ZERO));
	}
	public static Value BMul(Value a, Value b) {
		return s(n(a).multiply(n(b)));
	}
	/** a * b / c, rounded down. */
	public static Value BMulDiv(Value a, Value b, Value c) {
		return s(n(a).multiply(n(b)).divide(n(c)));
	}
	/** a * b / c, rounded to the nearest, down when in the middle. */
	public static Value BMulDivN(Value a, Value b, Value c) {
		BigInteger[] q = n(a).multiply(n(b)).divideAndRemainder(n(c));
		return s(q[1].multiply(TWO).compareTo(n(c)) > 0 ? q[0].add(BigInteger.ONE) : q[0]);
	}
	/** The square root, rounded down. */
	public static Value BSqrt(Value a) {
		return s(n(a).sqrt());
	}
	/** Results beyond TLC's integers are cut off there. */
	public static Value BInt(Value a) {
		return IntValue.gen(n(a).min(BigInteger.valueOf(Integer.MAX_VALUE)).intValue());
	}
	public static Value BLeq(Value a, Value b) {
		return n(a).compareTo(n(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
	}
	public static Value BPow10(IntValue k) {
		return s(BigInteger.TEN.pow(k.val));
	}
}

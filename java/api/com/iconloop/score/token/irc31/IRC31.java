package com.iconloop.score.token.irc31;
import java.math.BigInteger;
import score.Address;
import score.annotation.Optional;
public interface IRC31 {
    BigInteger balanceOf(Address _owner, BigInteger _id);
    BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids);
    String tokenURI(BigInteger _id);
    void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, @Optional byte[] _data);
    void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, @Optional byte[] _data);
    void setApprovalForAll(Address _operator, boolean _approved);
    boolean isApprovedForAll(Address _owner, Address _operator);
}

package com.iconloop.score.token.irc31;
import java.math.BigInteger;
import score.*;
import score.annotation.*;
/** Stand-in for the token library (javaee-tokens) that the contracts are built on. */
public abstract class IRC31Basic implements IRC31 {
    private final BranchDB<BigInteger, DictDB<Address, BigInteger>> balances = Context.newBranchDB("balances", BigInteger.class);
    private final BranchDB<Address, DictDB<Address, Boolean>> approvals = Context.newBranchDB("approval", Boolean.class);
    private final DictDB<BigInteger, String> uris = Context.newDictDB("token_uri", String.class);
    private static final BigInteger Z = BigInteger.ZERO;
    @External(readonly = true) public BigInteger balanceOf(Address _owner, BigInteger _id) { return balances.at(_id).getOrDefault(_owner, Z); }
    @External(readonly = true) public BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids) { BigInteger[] r = new BigInteger[_ids.length]; for (int i = 0; i < r.length; i++) r[i] = balanceOf(_owners[i], _ids[i]); return r; }
    @External(readonly = true) public String tokenURI(BigInteger _id) { return uris.get(_id); }
    private void may(Address from) { Address c = Context.getCaller(); Context.require(from.equals(c) || isApprovedForAll(from, c), "Need operator approval for 3rd party transfers"); }
    private void move(Address from, Address to, BigInteger id, BigInteger v) { Context.require(v.signum() >= 0 && v.compareTo(balanceOf(from, id)) <= 0, "Insufficient funds"); balances.at(id).set(from, balanceOf(from, id).subtract(v)); balances.at(id).set(to, balanceOf(to, id).add(v)); }
    @External public void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, @Optional byte[] _data) { may(_from); move(_from, _to, _id, _value); if (_to.isContract()) Context.call(_to, "onIRC31Received", Context.getCaller(), _from, _id, _value, _data == null ? new byte[0] : _data); }
    @External public void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, @Optional byte[] _data) { Context.require(_ids.length == _values.length, "id/value pairs mismatch"); may(_from); for (int i = 0; i < _ids.length; i++) move(_from, _to, _ids[i], _values[i]); if (_to.isContract()) Context.call(_to, "onIRC31BatchReceived", Context.getCaller(), _from, _ids, _values, _data == null ? new byte[0] : _data); }
    @External public void setApprovalForAll(Address _operator, boolean _approved) { approvals.at(Context.getCaller()).set(_operator, _approved); }
    @External(readonly = true) public boolean isApprovedForAll(Address _owner, Address _operator) { return approvals.at(_owner).getOrDefault(_operator, false); }
    protected void _mint(Address owner, BigInteger id, BigInteger amount) { balances.at(id).set(owner, balanceOf(owner, id).add(amount)); if (owner.isContract()) Context.call(owner, "onIRC31Received", Context.getCaller(), owner, id, amount, new byte[0]); }
    protected void _mintBatch(Address owner, BigInteger[] ids, BigInteger[] amounts) { for (int i = 0; i < ids.length; i++) balances.at(ids[i]).set(owner, balanceOf(owner, ids[i]).add(amounts[i])); if (owner.isContract()) Context.call(owner, "onIRC31BatchReceived", Context.getCaller(), owner, ids, amounts, new byte[0]); }
    protected void _burn(Address owner, BigInteger id, BigInteger amount) { Context.require(amount.compareTo(balanceOf(owner, id)) <= 0, "Not enough balance"); balances.at(id).set(owner, balanceOf(owner, id).subtract(amount)); }
    protected void _burnBatch(Address owner, BigInteger[] ids, BigInteger[] amounts) { for (int i = 0; i < ids.length; i++) _burn(owner, ids[i], amounts[i]); }
    protected void _setTokenURI(BigInteger id, String uri) { uris.set(id, uri); }
    @EventLog(indexed = 3) public void TransferSingle(Address _operator, Address _from, Address _to, BigInteger _id, BigInteger _value) { }
    @EventLog(indexed = 3) public void TransferBatch(Address _operator, Address _from, Address _to, byte[] _ids, byte[] _values) { }
    @EventLog(indexed = 2) public void ApprovalForAll(Address _owner, Address _operator, boolean _approved) { }
    @EventLog(indexed = 1) public void URI(BigInteger _id, String _value) { }
}

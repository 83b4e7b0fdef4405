// L: T f(); S: void f(const T&); X: T f(const T&); V: void f(); C: bool f(T&, const T&)
#define ORD3(K, n) K(n##Relaxed) K(n##AcqRel) K(n##Release) K(n)
#define BITS3(K, n) K(n##Relaxed) K(n##Acquire) K(n##Release) K(n)
#define OPS_ALL(L, S, X, V, C) L(LoadRelaxed) L(LoadAcquire) L(Load) S(StoreRelaxed) S(StoreRelease) S(Store) ORD3(X, Exchange) \
	C(CmpExchgWeakRelaxed) C(CmpExchgWeakAcquire) C(CmpExchgWeakAcqRel) C(CmpExchgWeakRelease) C(CmpExchgWeak) \
	C(CmpExchgStrongRelaxed) C(CmpExchgStrongAcquire) C(CmpExchgStrongAcqRel) C(CmpExchgStrongRelease) C(CmpExchgStrong)
#define OPS_INT(L, S, X, V, C) ORD3(X, FetchAdd) ORD3(X, AddFetch) ORD3(S, Add) ORD3(X, FetchSub) ORD3(X, SubFetch) ORD3(S, Sub) \
	ORD3(V, Increment) ORD3(L, FetchIncrement) ORD3(L, IncrementFetch) ORD3(V, Decrement) ORD3(L, FetchDecrement) ORD3(L, DecrementFetch) \
	BITS3(X, FetchBitOr) BITS3(S, BitOr) BITS3(X, FetchBitAnd) BITS3(S, BitAnd)

#include <bits/stdc++.h>
#include "hx.h"
#include "mg/net/Buffer.cpp"
#include "mg/box/IOVec.cpp"
#include "mg/box/Mutex.cpp"
#include "mg/box/ThreadLocalPool.h"
#include "mg/box/Thread_Unix.cpp"
#include "mg/box/Thread.cpp"
#include "mg/box/ConditionVariable.cpp"
#include "mg/box/Time_Unix.cpp"
#include "mg/box/StringFunctions.cpp"
using namespace mg::net;
using mg::box::IOVec;

static const uint64_t CS = theBufferCopySize;
static uint64_t theSeq;
static uint8_t byteOf(uint64_t i) { return (uint8_t)(i * 131 + (i >> 8) * 17 + (i >> 16) * 7); }
static std::string bytes(uint64_t n) { std::string s(n, 0); for (auto& c : s) c = (char)byteOf(theSeq++); return s; }

static uint64_t pickSize(bool zero = true)
{
	static const uint64_t v[] = {0, 1, 5, CS - 1, CS, CS + 1, 2 * CS, 2 * CS + 3};
	return v[zero ? hx::pick(8) : 1 + hx::pick(7)];
}

static std::string content(const Buffer* b) { std::string s; for (; b; b = b->myNext.GetPointer()) s.append((const char*)b->myRData, b->myPos); return s; }

// A chain of non-empty raw buffers, the last one (or all) possibly with free space.
static Buffer::Ptr chain(std::vector<std::unique_ptr<uint8_t[]>>& mem, std::string& data, bool free)
{
	int n = 1 + (int)hx::pick(2);
	Buffer::Ptr head; Buffer* tail = nullptr;
	for (int i = 0; i < n; ++i)
	{
		uint32_t pos = 1 + hx::pick(2) * 6, cap = pos + (free ? hx::pick(2) * 4 : 0);
		mem.emplace_back(new uint8_t[cap]);
		std::string d = bytes(pos);
		memcpy(mem.back().get(), d.data(), pos);
		data += d;
		auto b = BufferRaw::NewShared(mem.back().get(), pos, cap);
		Buffer* p = b.GetPointer();
		if (tail) tail->myNext = std::move(b); else head = std::move(b);
		tail = p;
	}
	return head;
}

static void stream(int ops)
{
	theSeq = 0;
	std::vector<std::unique_ptr<uint8_t[]>> mem;
	BufferStream s;
	std::string m;
	for (int k = 0; k < ops; ++k)
	{
		int op = (int)hx::pick(9);
		if (op == 0) { uint64_t n = pickSize(); hx::log("EnsureWriteSize %llu", (unsigned long long)n); s.EnsureWriteSize(n); HX(s.GetWriteSize() >= n); }
		else if (op == 1) { uint64_t n = pickSize(); std::string d = bytes(n); hx::log("WriteCopy %llu", (unsigned long long)n); s.WriteCopy(d.data(), n); m += d; }
		else if (op == 2) { std::string d; Buffer::Ptr c = chain(mem, d, true); hx::log("WriteRef %d bytes", (int)d.size()); s.WriteRef(std::move(c)); m += d; }
		else if (op == 3)
		{
			uint64_t n = hx::pick(2) ? pickSize() : s.GetWriteSize();
			if (n > s.GetWriteSize()) n = s.GetWriteSize();
			std::string d = bytes(n);
			// The data goes into the writable space which the stream offers.
			if (n > 0)
			{
				IOVec v[16];
				uint32_t c = BuffersToIOVecsForRead(s.GetWritePos(), v, 16);
				uint64_t at = 0;
				for (uint32_t i = 0; i < c && at < n; ++i) { uint64_t t = std::min<uint64_t>(n - at, v[i].mySize); memcpy(v[i].myData, d.data() + at, t); at += t; }
				HXM(at == n, "the writable space is smaller than promised");
			}
			hx::log("PropagateWritePos %llu", (unsigned long long)n);
			s.PropagateWritePos(n);
			m += d;
		}
		else if (op == 4 || op == 5 || op == 6)
		{
			uint64_t n = hx::pick(3) == 0 ? m.size() : pickSize();
			if (n > m.size()) n = m.size();
			std::string d(n, 'x');
			if (op == 4) { hx::log("SkipData %llu", (unsigned long long)n); s.SkipData(n); m.erase(0, n); }
			else if (op == 5) { hx::log("ReadData %llu", (unsigned long long)n); s.ReadData(&d[0], n); HX(d == m.substr(0, n)); m.erase(0, n); }
			else { hx::log("PeekData %llu", (unsigned long long)n); s.PeekData(&d[0], n); HX(d == m.substr(0, n)); }
		}
		else if (op == 7) { hx::log("PopData"); Buffer::Ptr p = s.PopData(); HX(content(p.GetPointer()) == m); m.clear(); }
		else { if (hx::pick(4) == 0) { hx::log("Clear"); s.Clear(); m.clear(); HX(s.GetWriteSize() == 0); } }
		HX(s.GetReadSize() == m.size());
		HX(content(s.GetReadPos()) == m);
		HX((s.GetWriteSize() > 0) == (s.GetWritePos() != nullptr));
	}
}

static std::string content(BufferLinkList& l, uint32_t off)
{
	std::string s;
	for (const BufferLink* k = l.GetFirst(); k; k = k->myNext) s += content(k->myHead.GetPointer());
	HX(off <= s.size());
	return s.substr(off);
}

static Buffer::Ptr holes(std::vector<std::unique_ptr<uint8_t[]>>& mem, std::string& data)
{
	Buffer::Ptr c;
	int n = (int)hx::pick(4);
	Buffer* tail = nullptr;
	for (int i = 0; i < n; ++i)
	{
		uint32_t pos = hx::pick(3) * 3;
		mem.emplace_back(new uint8_t[8]);
		std::string d = bytes(pos);
		memcpy(mem.back().get(), d.data(), pos);
		data += d;
		auto b = BufferRaw::NewShared(mem.back().get(), pos, 8);
		Buffer* p = b.GetPointer();
		if (tail) tail->myNext = std::move(b); else c = std::move(b);
		tail = p;
	}
	return c;
}

// Links share buffers: whatever is done to one list, the other one is not affected.
static void links(int ops)
{
	theSeq = 0;
	std::vector<std::unique_ptr<uint8_t[]>> mem;
	BufferLinkList a, b;
	uint32_t ao = 0, bo = 0;
	std::string ma, mb;
	for (int k = 0; k < ops; ++k)
	{
		int op = (int)hx::pick(5);
		bool first = hx::pick(2);
		BufferLinkList& l = first ? a : b; uint32_t& o = first ? ao : bo; std::string& m = first ? ma : mb;
		if (op == 0)
		{
			std::string d; Buffer::Ptr c = holes(mem, d);
			hx::log("append to both, %d bytes", (int)d.size());
			a.AppendRef(c); b.AppendRef(c); ma += d; mb += d;
		}
		else if (op == 1) { std::string d = bytes(hx::pick(3) * 600); hx::log("append copy %d", (int)d.size()); l.AppendCopy(d.data(), d.size()); m += d; }
		else if (op == 2)
		{
			uint64_t n = hx::pick(5); if (n == 4) n = m.size(); n = std::min<uint64_t>(n, m.size());
			hx::log("%c skip %llu (offset %u)", first ? 'a' : 'b', (unsigned long long)n, o);
			l.SkipData(o, n); m.erase(0, n);
		}
		else if (op == 3)
		{
			hx::log("%c skip empty prefix (offset %u)", first ? 'a' : 'b', o);
			l.SkipEmptyPrefix(o);
			HX(l.IsEmpty() == m.empty());
			if (!l.IsEmpty()) HX(l.GetFirst()->myHead.IsSet() && l.GetFirst()->myHead->myPos > o);
		}
		else
		{
			if (hx::pick(2)) { l.SkipEmptyPrefix(o); }
			else if (l.GetFirst() && o) { const Buffer* h = l.GetFirst()->myHead.GetPointer(); if (!h || h->myPos <= o) l.SkipEmptyPrefix(o); }
			uint32_t cnt = 1 + hx::pick(4);
			IOVec v[5];
			uint32_t c = BuffersToIOVecsForWrite(l, o, v, cnt);
			hx::log("%c to %u vectors", first ? 'a' : 'b', cnt);
			std::string d; for (uint32_t i = 0; i < c; ++i) { HX(v[i].mySize > 0); d.append((const char*)v[i].myData, v[i].mySize); }
			HX(d == m.substr(0, d.size()));
			HXM(c == cnt || d.size() == m.size(), "vectors left while there is data");
		}
		HX(content(a, ao) == ma);
		HX(content(b, bo) == mb);
	}
}

static void copies()
{
	theSeq = 0;
	std::vector<std::unique_ptr<uint8_t[]>> mem;
	std::string d;
	int how = (int)hx::pick(4);
	Buffer::Ptr r;
	if (how == 0) { d = bytes(pickSize()); r = BuffersCopy(d.data(), d.size()); }
	else if (how == 1) { Buffer::Ptr c = holes(mem, d); r = BuffersCopy(c); }
	else if (how == 2)
	{
		BufferLinkList l; int n = (int)hx::pick(3);
		for (int i = 0; i < n; ++i) { std::string x; Buffer::Ptr c = holes(mem, x); if (hx::pick(2)) l.AppendRef(c); else { x = bytes(pickSize()); l.AppendCopy(x.data(), x.size()); } d += x; }
		r = BuffersCopy(l.GetFirst());
	}
	else { d = bytes(pickSize()); r = BuffersRef(d.data(), d.size()); if (r.IsSet()) HX(r->myRData == (const uint8_t*)d.data()); }
	HX(content(r.GetPointer()) == d);
	HX(r.IsSet() == !d.empty());
	for (const Buffer* b = r.GetPointer(); b; b = b->myNext.GetPointer()) HX(b->myPos <= b->myCapacity);
	// skip and write over the copied ones
	if (how < 3 && r.IsSet())
	{
		uint64_t n = std::min<uint64_t>(pickSize(), d.size());
		BuffersPropagateOnRead(r, n);
		HX(content(r.GetPointer()) == d.substr(n));
	}
}

// sizes around 4GB: the memory is never looked at, only the positions are
static void big()
{
	static const uint64_t sizes[] = {1, 5, 0x7fffffffull, 0x80000000ull, 0xc0000000ull, 0xfffffffeull};
	static char mem[1];
	BufferLinkList l;
	uint64_t total = 0;
	int n = 1 + (int)hx::pick(3);
	for (int i = 0; i < n; ++i)
	{
		uint64_t s = sizes[hx::pick(6)];
		l.AppendRef(mem, s);
		total += s;
	}
	uint32_t off = 0;
	uint64_t base = 0;
	for (int i = 0; i < 2 && base + off < total; ++i)
	{
		static const uint64_t steps[] = {1, 4, 5, 0x80000000ull, 0x100000000ull, 0x100000001ull, 0x180000000ull, ~0ull};
		uint64_t s = std::min<uint64_t>(steps[hx::pick(8)], total - base - off);
		uint64_t want = base + off + s;
		l.SkipData(off, s);
		uint64_t left = 0;
		for (const BufferLink* k = l.GetFirst(); k; k = k->myNext)
			for (const Buffer* b = k->myHead.GetPointer(); b; b = b->myNext.GetPointer())
				left += b->myPos;
		HX(left >= off);
		HX(left - off == total - want);
		HX(off == 0 || off < l.GetFirst()->myHead->myPos);
		base = want - off;
	}
}

int main(int argc, char** argv)
{
	hx::init(argc, argv);
	double T = hx::theThorough ? 60 : 4;
	hx::exhaustive("copies", 100000000, T, copies);
	hx::exhaustive("links of huge sizes", 100000000, T, big);
	hx::exhaustive("stream, 3 operations", 100000000, T, []() { stream(3); });
	hx::exhaustive("links, 3 operations", 100000000, T, []() { links(3); });
	hx::random("stream, random", 100000000, 2 * T, []() { stream(8); });
	hx::random("links, random", 100000000, 2 * T, []() { links(8); });
	printf("PASS\n");
	return 0;
}

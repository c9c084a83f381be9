#pragma once
#include "common.h"
#include <stdex/stream.hpp>
#include <memory>
using stdex::stream::state_t;
static const size_t MOCK_MAX = 64;

// A source that hands out data[0..n): each read transfers any part of what was asked for (if `partial`),
// reports the end by a read of no bytes, and may fail for good at any call (if `failing`).
// The transfer sizes are decided by the checker: every possibility is explored.
struct mock_source : public stdex::stream::basic {
	uint8_t data[MOCK_MAX]; size_t n = 0, pos = 0;
	bool partial = false, failing = false, failed = false, eof_with_data = false;
	unsigned calls = 0, max_partial = 1000;
	mock_source() {}
	mock_source(size_t len, const char* name) : n(len) { sx_symbolic(data, len, name); }
	virtual size_t read(void* d, size_t length)
	{
		calls++;
		if (failed || (failing && sx_choose(2, "source fails"))) { failed = true; m_state = state_t::fail; return 0; }
		size_t k = n - pos < length ? n - pos : length;
		if (k > 1 && partial && max_partial) { size_t kk = 1 + sx_choose((uint32_t)k, "source transfers"); if (kk < k) max_partial--; k = kk; }
		memcpy(d, data + pos, k); pos += k;
		m_state = (k == 0 && length) || (eof_with_data && k < length && pos == n) ? state_t::eof : state_t::ok;
		return k;
	}
	virtual void close() { m_state = state_t::ok; }
};

// A sink that accepts any part of what it is given (if `partial`: then it reports failure for that call, as writers do),
// and may fail for good at any call (if `failing`).
struct mock_sink : public stdex::stream::basic {
	uint8_t data[MOCK_MAX]; size_t n = 0, cap = MOCK_MAX;
	bool failing = false, failed = false, partial = false, overflow = false, transient = false, ever = false;
	unsigned calls = 0, flushes = 0, closes = 0;
	virtual size_t write(const void* d, size_t length)
	{
		calls++; late |= closes && length;
		size_t k = length;
		if (failed && !transient) k = 0;
		else if (failed = false, failing && sx_choose(2, "sink fails")) { failed = ever = true; k = partial && length ? sx_choose((uint32_t)length, "sink accepted") : 0; }
		else if (k > cap - n) { k = cap - n; overflow = true; sx_check(cap != MOCK_MAX, "harness: mock sink too small"); }
		memcpy(data + n, d, k); n += k;
		m_state = failed || k < length ? state_t::fail : state_t::ok;
		return k;
	}
	virtual void flush() { flushes++; m_state = failed ? state_t::fail : state_t::ok; }
	bool late = false;
	virtual void close() { closes++; m_state = failed ? state_t::fail : state_t::ok; }
};

// An ideal file: a byte array with a cursor; writing past the end fills with zeros.
struct ideal_file : public stdex::stream::basic_file {
	uint8_t data[MOCK_MAX]; size_t n = 0, pos = 0;
	bool partial = false;
	ideal_file() { memset(data, 0, sizeof(data)); }
	virtual size_t read(void* d, size_t length)
	{
		size_t k = pos < n ? n - pos : 0; if (k > length) k = length;
		memcpy(d, data + (k ? pos : 0), k); pos += k;
		m_state = k || !length ? state_t::ok : state_t::eof;
		return k;
	}
	virtual size_t write(const void* d, size_t length)
	{
		if (pos + length > MOCK_MAX) sx_fail("harness: ideal file too small");
		if (length) { // beyond the end the array is zero
			memcpy(data + pos, d, length); pos += length; if (n < pos) n = pos;
		}
		m_state = state_t::ok;
		return length;
	}
	virtual void close() { m_state = state_t::ok; }
	virtual void flush() { m_state = state_t::ok; }
	virtual stdex::stream::fpos_t seek(stdex::stream::foff_t off, stdex::stream::seek_t how = stdex::stream::seek_t::beg)
	{
		int64_t o = (how == stdex::stream::seek_t::beg ? 0 : how == stdex::stream::seek_t::cur ? (int64_t)pos : (int64_t)n) + off;
		if (o < 0) { m_state = state_t::fail; return stdex::stream::fpos_max; }
		pos = (size_t)o; m_state = state_t::ok;
		return pos;
	}
	virtual stdex::stream::fpos_t tell() const { return pos; }
	virtual void lock(stdex::stream::fpos_t, stdex::stream::fsize_t) {}
	virtual void unlock(stdex::stream::fpos_t, stdex::stream::fsize_t) {}
	virtual stdex::stream::fsize_t size() const { return n; }
	virtual void truncate() { if (pos < n) memset(data + pos, 0, n - pos); n = pos; m_state = state_t::ok; }
};

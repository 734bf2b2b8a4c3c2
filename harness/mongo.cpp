// Database documents (C33).  The symbolic runs use the stand-ins of model/mongo for libbson and the driver, replays the real libbson.
#include "sxapi.h"
#include "db_mongoc.h"
#include "utils_string.h"
#include "sxmongo.h"
#include <cmath>
#include <string>
#include <vector>
using namespace ccgl;
using namespace ccgl::db_mongoc;
typedef std::string S;
static S digits(int64_t v) { if (v == INT64_MIN) return "-9223372036854775808"; bool m = v < 0; if (m) v = -v; S s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return m ? "-" + s : s; }
static void fill(bson_t* b, const char* k, int64_t v, int type) {
    if (type == 0) bson_append_int32(b, k, -1, (int32_t)v);
    else if (type == 1) bson_append_int64(b, k, -1, v);
    else if (type == 2) bson_append_double(b, k, -1, (double)v);
    else { S t = digits(v); bson_append_utf8(b, k, -1, t.c_str(), -1); }
}
template <typename T> static void number(bson_t* b, int64_t v) {
    T x = 77;
    sx_check("found", GetNumericFromBson(b, "k", x));
    sx_check("number", x == (T)v);
}
//@unit C33 c33_number prof=mongo time=60/300 | one field among others: 32-bit and 64-bit integers and whole doubles of 16 bits (64 bits read as 64-bit integers), texts of a few numbers; read as int, 64-bit integer, float and double
extern "C" void c33_number() {
    uint64_t mark = sx_heap_mark();
    {
        bson_t b = BSON_INITIALIZER;
        if (sx_flag("other before")) bson_append_int32(&b, "kk", -1, 5);
        int type = sx_pick("type", 0, 3), as = sx_pick("as", 0, 3);
        static const int FEW[] = {0, 7, -1, 42, -32768, 32767, 100000};
        int64_t v = type == 3 ? FEW[sx_pick("few", 0, 6)] : type == 1 && as == 1 ? (int64_t)sx_bits("v", 64) : (int16_t)sx_bits("v", 16);
        if (type == 2) { double d = sx_ifp("d", -32768, 32767); v = (int64_t)d; bson_append_double(&b, "k", -1, d); }
        else fill(&b, "k", v, type);
        if (sx_flag("other behind")) bson_append_utf8(&b, "K", -1, "6", -1);
        if (as == 0) number<int>(&b, v); else if (as == 1) number<vint64_t>(&b, v); else if (as == 2) number<float>(&b, v); else number<double>(&b, v);
        bson_destroy(&b);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C33 c33_unsuitable prof=mongo time=60/300 N=3/5 | missing fields, flags, nulls and times read as numbers, texts of up to N characters among digits, signs, points, letters and spaces: a number is read exactly when the text begins with one, else the variable keeps its value
extern "C" void c33_unsuitable() {
    uint64_t mark = sx_heap_mark();
    {
        bson_t b = BSON_INITIALIZER;
        int type = sx_pick("type", 0, 4);
        S t;
        if (type == 1) bson_append_bool(&b, "k", -1, true);
        else if (type == 2) bson_append_null(&b, "k", -1);
        else if (type == 3) bson_append_date_time(&b, "k", -1, 123456);
        else if (type == 4) { int n = sx_pick("length", 0, (int)sx_param("N")); for (int i = 0; i < n; i++) t += sx_among("c", "07.-+x "); bson_append_utf8(&b, "k", -1, t.c_str(), -1); }
        int x = 77; double y = 77;
        bool ok = GetNumericFromBson(&b, "k", x), ok2 = GetNumericFromBson(&b, "k", y);
        size_t i = 0;
        while (i < t.size() && t[i] == ' ') i++;
        if (i < t.size() && (t[i] == '-' || t[i] == '+')) i++;
        bool num = i < t.size() && ((t[i] >= '0' && t[i] <= '9') || (t[i] == '.' && i + 1 < t.size() && t[i + 1] >= '0' && t[i + 1] <= '9'));
        sx_check("accepted", ok == num && ok2 == num);
        if (!num) sx_check("untouched", x == 77 && y == 77);
        bson_destroy(&b);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C33 c33_text prof=mongo time=60/300 N=5/8 | texts of up to N arbitrary characters, 32-bit and 64-bit integers of 8 bits and a few at the limits, a few doubles; missing and unsuitable fields give an empty text
extern "C" void c33_text() {
    uint64_t mark = sx_heap_mark();
    {
        bson_t b = BSON_INITIALIZER;
        if (sx_flag("other before")) bson_append_utf8(&b, "kk", -1, "5", -1);
        int type = sx_pick("type", 0, 5);
        S want;
        static const int64_t EDGE[] = {INT32_MIN, INT32_MAX, 0, -1, INT64_MIN, INT64_MAX, 4294967296ll};
        static const double D[] = {0.5, -9999, 0.1, 1234567, 123456.789, 3958422.5, -3.4028234663852886e38, 1e-7, 4294967296.5};
        if (type == 0) { want = sx_string("t", sx_pick("length", 0, (int)sx_param("N"))); bson_append_utf8(&b, "k", -1, want.c_str(), -1); }
        else if (type == 1) { int64_t v = EDGE[sx_pick("edge", 0, 3)]; fill(&b, "k", v, 0); want = digits(v); }
        else if (type == 2) { int64_t v = EDGE[sx_pick("edge", 0, 6)]; fill(&b, "k", v, 1); want = digits(v); }
        else if (type == 3) {
            double d = D[sx_pick("double", 0, 8)];
            bson_append_double(&b, "k", -1, d);
            sx_check("double", std::strtod(GetStringFromBson(&b, "k").c_str(), nullptr) == d);
            bson_destroy(&b);
            sx_reach("double");
            return;
        }
        else if (type == 4) bson_append_null(&b, "k", -1);
        sx_check("text", GetStringFromBson(&b, "k") == want);
        bson_destroy(&b);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C33 c33_flag prof=mongo time=60/300 N=4/5 | every 32-bit and 64-bit integer, whole doubles of 16 bits and 0.5, flags, texts of up to N characters among t r u e T R U E 1, missing fields
extern "C" void c33_flag() {
    uint64_t mark = sx_heap_mark();
    {
        bson_t b = BSON_INITIALIZER;
        int type = sx_pick("type", 0, 6);
        bool want = false;
        if (type == 0) { int32_t v = (int32_t)sx_bits("v", 32); bson_append_int32(&b, "k", -1, v); want = v != 0; }
        else if (type == 1) { int64_t v = (int64_t)sx_bits("v", 64); bson_append_int64(&b, "k", -1, v); want = v != 0; }
        else if (type == 2) { double v = sx_ifp("d", -32768, 32767); bson_append_double(&b, "k", -1, v); want = v != 0; }
        else if (type == 3) { bson_append_double(&b, "k", -1, 0.5); want = true; }
        else if (type == 4) { want = sx_flag("flag"); bson_append_bool(&b, "k", -1, want); }
        else if (type == 5) {
            S t; int n = sx_pick("length", 0, (int)sx_param("N"));
            for (int i = 0; i < n; i++) t += sx_among("c", "trueTRUE1");
            bson_append_utf8(&b, "k", -1, t.c_str(), -1);
            want = t.size() == 4 && (t[0] == 't' || t[0] == 'T') && (t[1] == 'r' || t[1] == 'R') && (t[2] == 'u' || t[2] == 'U') && (t[3] == 'e' || t[3] == 'E');
        }
        sx_check("flag", GetBoolFromBson(&b, "k") == want);
        bson_destroy(&b);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
// Days since 1970-01-01
static int64_t days(int y, int m, int d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
//@unit C33 c33_time prof=mongo time=60/300 | times of any whole millisecond from 1970 to 2255 and a few before; texts of dates with and without time, with and without leading zeros, one of day, hour, minute and second arbitrary; missing and unsuitable fields, texts without a date
extern "C" void c33_time() {
    uint64_t mark = sx_heap_mark();
    {
        bson_t b = BSON_INITIALIZER;
        int type = sx_pick("type", 0, 5);
        if (type == 0) {
            int64_t ms = (int64_t)sx_bits("ms", 43);
            bson_append_date_time(&b, "k", -1, ms);
            sx_check("time", GetDatetimeFromBson(&b, "k") == ms / 1000);
        } else if (type == 1) {
            static const int64_t E[] = {0, 5, 999, -1, -999, -1000, -1500, -86400000, 253402300799000ll};
            int64_t ms = E[sx_pick("edge", 0, 8)];
            bson_append_date_time(&b, "k", -1, ms);
            int64_t t = GetDatetimeFromBson(&b, "k");
            sx_check("time", t == ms / 1000 || (ms < 0 && t == (ms - 999) / 1000));
        } else if (type <= 3) {
            static const int Y[] = {1970, 2000, 2010, 2038, 2100};
            int y = Y[sx_pick("year", 0, 4)], m = sx_pick("month", 1, 12);
            int w = sx_pick("any", 0, type == 3 ? 3 : 0);
            int d = w == 0 ? sx_int("day", 1, 28) : 9, h = w == 1 ? sx_int("hour", 0, 23) : 17, mi = w == 2 ? sx_int("minute", 0, 59) : 5, s = w == 3 ? sx_int("second", 0, 59) : 30;
            S t = digits(y) + "-";
            bool brief = sx_flag("brief");   // no leading zeros
            auto two = [&](int v) { if (!brief || v >= 10) t += (char)('0' + v / 10); t += (char)('0' + v % 10); };
            two(m); t += '-'; two(d);
            int64_t want = days(y, m, 1) * 86400 + (d - 1) * 86400ll;
            if (type == 3) { t += ' '; two(h); t += ':'; two(mi); t += ':'; two(s); want += h * 3600 + mi * 60 + s; }
            bson_append_utf8(&b, "k", -1, t.c_str(), -1);
            sx_check("time", GetDatetimeFromBson(&b, "k") == want);
        } else if (type == 4) {
            static const char* const BAD[] = {"x", "2010", "2010-01", "no date in this text", "-"};
            int k = sx_pick("bad", 0, 7);
            if (k < 5) bson_append_utf8(&b, "k", -1, BAD[k], -1);
            else if (k == 5) bson_append_int32(&b, "k", -1, 5);
            else if (k == 6) bson_append_bool(&b, "k", -1, true);
            else bson_append_null(&b, "k", -1);
            int64_t t = GetDatetimeFromBson(&b, "k");
            sx_check("refused", t == -1 || (k < 5 && t == 0));
        } else sx_check("missing", GetDatetimeFromBson(&b, "k") == -1);
        bson_destroy(&b);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C33 c33_options prof=mongo time=60/300 N=3/4 | one or two options of up to N characters among digits, signs, points, letters and spaces or a few longer ones, with a prefix or without: texts are read back as such, numbers as the same number
extern "C" void c33_options() {
    static const char* const LONG[] = {"3000000000", "-2147483649", "-2147483648", "2147483647", "0.123456789", "1e10", "9007199254740993", "-9999", "FLOAT", "1e400", "GDT_Int32", "nan", "inf"};
    uint64_t mark = sx_heap_mark();
    {
        bson_t b = BSON_INITIALIZER;
        STRING_MAP o;
        int n = sx_pick("options", 1, 2);
        S val[2]; static const char* const K[2] = {"B", "A"};
        for (int i = 0; i < n; i++) {
            if (i == 0 && sx_flag("long")) val[i] = LONG[sx_pick("text", 0, 12)];
            else { int len = sx_pick("length", 0, i ? 1 : (int)sx_param("N")); for (int j = 0; j < len; j++) val[i] += sx_among("c", "07.-+ex "); }
            o[K[i]] = val[i];
        }
        bool pre = sx_flag("prefix");
        AppendStringOptionsToBson(&b, o, pre ? "metadata." : "");
        for (int i = 0; i < n; i++) {
            S key = pre ? S("metadata.") + K[i] : S(K[i]), t = GetStringFromBson(&b, key.c_str());
            if (t == val[i]) continue;
            bool num = false; double want = utils_string::IsDouble(val[i], num), got = 0;
            sx_check("text", num);
            sx_check("number", GetNumericFromBson(&b, key.c_str(), got) && got == want);
            double again = std::strtod(t.c_str(), nullptr);
            sx_check("number in text", again == want);
        }
        double x = 77;
        sx_check("no other", n == 2 || !GetNumericFromBson(&b, pre ? "metadata.A" : "A", x));
        bson_destroy(&b);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}
//@unit C33 c33_names prof=mongo time=60/300 N=3/4 | up to N collections of the names a, a.b, x.y.z with or without .files or .chunks: collections that form a file store are listed under its name, once
extern "C" void c33_names() {
    static const char* const STEM[] = {"a", "a.b", "x.y.z", "ab", "files"};
    static const char* const END[] = {"", ".files", ".chunks"};
    uint64_t mark = sx_heap_mark();
    {
        mongo_reset();
        int n = sx_pick("collections", 0, (int)sx_param("N"));
        std::vector<S> in;
        for (int i = 0; i < n; i++) {
            S s = S(STEM[sx_pick("stem", 0, 4)]) + END[sx_pick("end", 0, 2)];
            for (size_t k = 0; k < in.size(); k++) if (in[k] == s) return;
            in.push_back(s);
            mongo_collection(s.c_str());
        }
        MongoClient* c = MongoClient::Init("127.0.0.1", 27017);
        std::vector<S> got;
        got.push_back("old");
        c->GetCollectionNames("db", got);
        auto has = [](const std::vector<S>& v, const S& s) { int k = 0; for (size_t i = 0; i < v.size(); i++) k += v[i] == s; return k; };
        for (int i = 0; i < n; i++) sx_check("listed", has(got, in[i]) >= 1);
        size_t stores = 0;
        for (int i = 0; i < 5; i++) {
            S s = STEM[i];
            bool store = has(in, s + ".files") && has(in, s + ".chunks");
            if (store) stores++;
            sx_check("store", has(got, s) == (store ? 1 : 0) + has(in, s));
        }
        sx_check("no others", got.size() == in.size() + stores);
        mongoc_collection_t* k = c->GetCollection("db", "a");
        sx_check("collection", (k != nullptr) == (has(in, "a") > 0));
        if (k) delete new MongoCollection(k);
        std::vector<S> d;
        c->GetDatabaseNames(d);
        sx_check("database", d.size() == 1 && d[0] == "db");
        c->Destroy();
        delete c;
        sx_check("closed", mongo_open() == 0);
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}

//@unit C33 c33_files prof=mongo time=60/300 N=3/3 | up to N stored files of two names with a field K of 1, 2 or none and two arbitrary bytes: listing, contents, fields and removal of those that match, a new one written; the same asked of no store
extern "C" void c33_files() {
    uint64_t mark = sx_heap_mark();
    {
        mongo_reset();
        MongoClient* c = MongoClient::Init("127.0.0.1", 27017);
        MongoGridFs* g = c->GridFs("db", "S");
        int n = sx_pick("files", 0, (int)sx_param("N")), nm[4], k[4];
        static const char* const N[] = {"a", "b"};
        static const char* const K[] = {"", "1", "2"};
        char data[4][2];
        for (int i = 0; i < n; i++) {
            nm[i] = sx_pick("name", 0, 1); k[i] = sx_pick("K", 0, 2);
            data[i][0] = (char)sx_bits("byte", 8); data[i][1] = (char)sx_bits("byte", 8);
            bson_t b = BSON_INITIALIZER;
            bson_append_int32(&b, "I", -1, i);
            if (k[i]) bson_append_int32(&b, "K", -1, k[i]);
            mongo_put(N[nm[i]], data[i], 2, &b);
            bson_destroy(&b);
        }
        std::vector<S> names;
        g->GetFileNames(names);
        sx_check("names", (int)names.size() == n);
        for (int i = 0; i < n; i++) sx_check("name", names[i] == N[nm[i]]);
        MongoCollection* all = new MongoCollection(mongoc_client_get_collection(c->GetConn(), "db", "S.files"));
        sx_check("records", all->QueryRecordsCount() == n);
        delete all;
        int ask = sx_pick("ask name", 0, 1), field = sx_pick("ask K", 0, 2), first = -1, hits = 0;
        STRING_MAP o;
        if (field) o["K"] = K[field];
        for (int i = n - 1; i >= 0; i--) if (nm[i] == ask && (!field || k[i] == field)) { first = i; hits++; }
        bson_t* meta = g->GetFileMetadata(N[ask], nullptr, o);
        int at = -1;
        sx_check("fields", (meta != nullptr) == (first >= 0) && (!meta || (GetNumericFromBson(meta, "I", at) && at == first)));
        if (meta) bson_destroy(meta);
        char* buf = nullptr; vint len = -1;
        sx_check("content", g->GetStreamData(N[ask], buf, len, nullptr, &o) == (first >= 0));
        if (first >= 0) sx_check("bytes", len == 2 && buf[0] == data[first][0] && buf[1] == data[first][1]); else sx_check("no bytes", buf == nullptr);
        free(buf);
        g->RemoveFile(N[ask], nullptr, o);
        sx_check("removed", mongo_files() == n - hits);
        int left = 0;
        for (int i = 0; i < n; i++) if (!(nm[i] == ask && (!field || k[i] == field))) { sx_check("kept", mongo_data(left)[0] == data[i][0] && mongo_data(left)[1] == data[i][1]); left++; }
        char* out = data[3]; out[0] = 'x'; out[1] = (char)sx_bits("byte", 8);
        bson_t b = BSON_INITIALIZER;
        AppendStringOptionsToBson(&b, o);
        bool fail = sx_flag("fail");
        if (fail) mongo_fail_saves(1);
        sx_check("written", g->WriteStreamData(N[ask], out, 2, &b) == !fail);
        sx_check("one more", mongo_files() == left + (fail ? 0 : 1));
        if (!fail) sx_check("stored", mongo_length(left) == 2 && mongo_data(left)[1] == out[1] && S(mongo_name(left)) == N[ask]);
        MongoGridFs none(nullptr);
        names.clear();
        none.GetFileNames(names);
        buf = nullptr;
        sx_check("no store", names.empty() && !none.GetFileMetadata("a") && !none.GetStreamData("a", buf, len) && !none.RemoveFile("a") && !none.GetFile("a") && !none.WriteStreamData("a", out, 2, &b));
        bson_destroy(&b);
        delete g; c->Destroy(); delete c;
        sx_check("closed", mongo_open() == 0);
        mongo_reset();
        sx_reach("end");
    }
    sx_heap_check("released", mark);
}

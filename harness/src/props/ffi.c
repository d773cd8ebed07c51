#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cordy.h"

typedef struct { char* p; size_t n, cap; } buf;

static void put(buf* b, const char* s, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2; b->p = realloc(b->p, b->cap); }
    memcpy(b->p + b->n, s, n);
    b->n += n;
    b->p[b->n] = 0;
}

static void describe(buf* b, cordy_value_t v) {
    char t[64];
    switch (v.ty) {
        case TY_NIL: put(b, "n", 1); break;
        case TY_BOOL: put(b, v.bool_value ? "t" : "f", 1); break;
        case TY_INT: put(b, t, sprintf(t, "i%lld;", (long long) v.int_value)); break;
        case TY_STR: { size_t n = strlen(v.str_value); put(b, t, sprintf(t, "s%zu:", n)); put(b, v.str_value, n); break; }
        case TY_ARRAY: {
            put(b, "[", 1);
            for (size_t i = 0; i < v.vec_value.len; i++) describe(b, v.vec_value.ptr[i]);
            put(b, "]", 1);
            break;
        }
        default: put(b, t, sprintf(t, "?%u;", (unsigned) v.ty));
    }
}

#define DESCRIBE(name) \
CORDY_EXTERN(name) { \
    buf b = { 0 }; \
    char t[64]; \
    put(&b, t, sprintf(t, "%s %s %zu ", TAG, #name, n)); \
    for (size_t i = 0; i < n; i++) describe(&b, args[i]); \
    cordy_value_t r = STR(b.p); \
    free(b.p); \
    return r; \
}

DESCRIBE(d0) DESCRIBE(d1) DESCRIBE(d2) DESCRIBE(d3) DESCRIBE(d4) DESCRIBE(d5) DESCRIBE(d) DESCRIBE(d10)

CORDY_EXTERN(echo) { ASSERT(n == 1); return args[0]; }
CORDY_EXTERN(last) { ASSERT(n > 0); return args[n - 1]; }
CORDY_EXTERN(count) { return INT((int64_t) n); }

CORDY_EXTERN(tick) {
    static int64_t ticks = 0;
    return INT(++ticks);
}

CORDY_EXTERN(release) {
    int64_t k = 0;
    for (size_t i = 0; i < n; i++) if (args[i].ty == TY_STR) { FREE(args[i]); k++; }
    return INT(k);
}

static cordy_value_t parse(const char** s) {
    char c = *(*s)++;
    switch (c) {
        case 'n': return NIL();
        case 't': return BOOL(true);
        case 'f': return BOOL(false);
        case 'T': case 'F': { // only the bool is written
            cordy_value_t v;
            memset(&v, 0x5a, sizeof v);
            v.ty = TY_BOOL;
            v.bool_value = c == 'T';
            return v;
        }
        case 'i': { char* e; int64_t v = strtoll(*s, &e, 10); *s = e + 1; return INT(v); }
        case 's': {
            char* e;
            size_t k = strtoull(*s, &e, 10);
            char* t = malloc(k + 1);
            memcpy(t, e + 1, k);
            t[k] = 0;
            *s = e + 1 + k;
            cordy_value_t r = STR(t);
            free(t);
            return r;
        }
        case '[': {
            size_t k = 0, cap = 4;
            cordy_value_t* items = malloc(cap * sizeof *items);
            while (**s != ']') {
                if (k == cap) items = realloc(items, (cap *= 2) * sizeof *items);
                items[k++] = parse(s);
            }
            (*s)++;
            cordy_value_t r = VEC(k + k % 3);
            for (size_t i = 0; i < k; i++) r.vec_value.ptr[r.vec_value.len++] = items[i];
            free(items);
            return r;
        }
        case 'e': switch (*(*s)++) { // an error, which may be anywhere in a value
            case '0': return ERR(it went wrong);
            case '1': return _ERR("");
            case '2': return _ERR("é 日 \"x\"");
            case '3': return _ERR("\xff\xfe");
            default: return _ERR("a\n  second line");
        }
        default: return _VALUE(TY_ERR, str_value, "bad text");
    }
}

CORDY_EXTERN(make) {
    ASSERT(n == 1);
    AS_STR(str_t s, args[0]);
    return parse(&s);
}

static cordy_value_t inner(bool b) {
    ASSERT(b);
    return INT(77);
}

CORDY_EXTERN(attempt) {
    ASSERT(n == 1);
    AS_BOOL(bool b, args[0]);
    TRY(cordy_value_t v, inner(b));
    return v;
}

CORDY_EXTERN(boom) { return ERR(it went wrong); }

// Releases all but the first argument, then describes the first one, after other texts were made
CORDY_EXTERN(reuse) {
    ASSERT(n > 0);
    for (size_t i = 1; i < n; i++) if (args[i].ty == TY_STR) FREE(args[i]);
    cordy_value_t other[8];
    for (size_t i = 0; i < 8; i++) {
        char t[64] = "############################################";
        if (args[0].ty == TY_STR && strlen(args[0].str_value) < 40) t[strlen(args[0].str_value)] = 0;
        other[i] = STR(t);
    }
    buf b = { 0 };
    describe(&b, args[0]);
    for (size_t i = 0; i < 8; i++) FREE(other[i]);
    cordy_value_t r = STR(b.p);
    free(b.p);
    return r;
}

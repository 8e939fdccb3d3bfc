/* Random histories of list, table and sort against a model held in plain arrays.
   containers <what> <seed> <operations> <pool>      prints "ok ..." or "FAIL ..." */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "list.h"
#include "table.h"
#include "sort.h"

BEGIN_ITEM(It)
    long id;
    long guard;
END_ITEM(It);
BEGIN_LIST_OF(It)
    long tail;
END_LIST(Li);
BEGIN_ENTRY(En)
    long id;
END_ENTRY(En);
BEGIN_TABLE_OF(En, Enlist)
    long tail;
END_TABLE(Ta);

static unsigned long long rs;
static unsigned long rnd(unsigned long n)
{
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return (unsigned long) ((rs >> 11) % n);
}
static long step;
#define FAIL(msg) do { printf("FAIL step %ld: %s (line %d)\n", step, msg, __LINE__); fflush(stdout); exit(1); } while (0)
#define CHECK(x, msg) do { if (!(x)) FAIL(msg); } while (0)

/* ------------------------------------------------------------------ lists */
#define LISTS 4
static Li list[LISTS];
static It **model[LISTS];
static long n_model[LISTS];
static It *pool; static long n_pool; static int *where;      /* list of an item, or -1 */

static void m_insert(int l, long at, It *x)
{
    memmove(model[l] + at + 1, model[l] + at, (n_model[l] - at) * sizeof(It *));
    model[l][at] = x; n_model[l]++; where[x->id] = l;
}
static void m_remove(int l, long at)
{
    where[model[l][at]->id] = -1;
    memmove(model[l] + at, model[l] + at + 1, (n_model[l] - at - 1) * sizeof(It *));
    n_model[l]--;
}
static void check_list(int l)
{
    It *p, *prev = NULL; long i = 0;
    CHECK(list[l].count == n_model[l], "count of a list");
    CHECK(list[l].tail == 4711 + l, "field after the list changed");
    for (p = list[l].first; p; p = p->next)
    {
        CHECK(i < n_model[l], "too many items in a list");
        CHECK(p == model[l][i], "order of a list");
        CHECK(p->prev == prev, "backward link");
        CHECK(p->guard == p->id * 7 + 1, "contents of an item changed");
        prev = p; i++;
    }
    CHECK(i == n_model[l], "items lost from a list");
    CHECK(list[l].last == prev, "last item of a list");
}
static void check_array(int l)
{
    long i;
    if (n_model[l] == 0) return;
    CHECK(list[l].array != NULL, "no array");
    for (i = 0; i < n_model[l]; i++) CHECK(list[l].array[i] == model[l][i], "array of a list");
}
static int emptying; static char *given; static long n_given;
static void take(x) It *x;
{
    CHECK(where[x->id] == emptying, "item of another list given out while emptying");
    CHECK(!given[x->id], "item given out twice while emptying");
    given[x->id] = 1; n_given++;
}
static long free_item(void)
{
    long k = rnd(n_pool), i;
    for (i = 0; i < n_pool; i++, k = (k + 1) % n_pool) if (where[k] < 0) return k;
    return -1;
}
static void lists(long ops, long np)
{
    long i, k, stats[9] = {0}; int l; long biggest = 0;
    n_pool = np; pool = calloc(np, sizeof(It)); where = calloc(np, sizeof(int)); given = calloc(np, 1);
    for (i = 0; i < np; i++) { pool[i].id = i; pool[i].guard = i * 7 + 1; where[i] = -1; pool[i].prev = pool[i].next = (It *) (rnd(2) ? 0x10 : 0); }
    for (l = 0; l < LISTS; l++) { model[l] = calloc(np + 1, sizeof(It *)); memset(&list[l], l ? 0xEE : 0, sizeof list[l]); list[l].tail = 4711 + l; if (l) list_initialize(&list[l]); }
    for (step = 1; step <= ops; step++)
    {
        int op = rnd(100); int phase = (step / (2 * np + 1)) % 3;
        l = rnd(LISTS);
        if (phase == 0 && op >= 60 && op < 86) op = rnd(60);
        if (op < 60)
        {
            if ((k = free_item()) < 0) op = 70;
            else
            {
                It *x = &pool[k];
                int how = n_model[l] ? op % 4 : op % 2;
                if (how == 0) { list_insert_first(&list[l], x); m_insert(l, 0, x); }
                else if (how == 1) { list_insert_last(&list[l], x); m_insert(l, n_model[l], x); }
                else
                {
                    long at = rnd(4) == 0 ? 0 : rnd(4) == 0 ? n_model[l] - 1 : (long) rnd(n_model[l]);
                    It *ref = model[l][at];
                    if (how == 2) { list_insert_before(&list[l], x, ref); m_insert(l, at, x); }
                    else { list_insert_after(&list[l], ref, x); m_insert(l, at + 1, x); }
                }
                stats[how]++;
            }
        }
        if (op >= 60 && op < 86)
        {
            if (n_model[l])
            {
                long at = rnd(4) == 0 ? 0 : rnd(4) == 0 ? n_model[l] - 1 : (long) rnd(n_model[l]);
                list_remove(&list[l], model[l][at]); m_remove(l, at); stats[4]++;
            }
        }
        else if (op >= 86 && op < 98) { list_in_array(&list[l]); check_list(l); check_array(l); if (rnd(2)) { list_in_array(&list[l]); check_array(l); } stats[5]++; }
        else if (op >= 98 && rnd(4) == 0)
        {
            long n = n_model[l];
            emptying = l; n_given = 0; memset(given, 0, np);
            list_empty(&list[l], take);
            CHECK(n_given == n, "items not given out while emptying");
            while (n_model[l]) m_remove(l, n_model[l] - 1);
            stats[6]++;
        }
        if (n_model[l] > biggest) biggest = n_model[l];
        if (np <= 64 || step % 16 == 0) for (l = 0; l < LISTS; l++) check_list(l); else check_list(l);
    }
    printf("ok first %ld last %ld before %ld after %ld remove %ld array %ld empty %ld longest %ld\n", stats[0], stats[1], stats[2], stats[3], stats[4], stats[5], stats[6], biggest);
}
/* ------------------------------------------------------------------ tables */
static Ta table[2]; static En *ent; static long n_ent; static int *in; static long n_in[2];
static char *make_key(long id, int style)
{
    char *k = calloc(1, 400); long n, i;
    switch (style)
    {
    case 0: sprintf(k, "%ld", id); break;
    case 1:  /* few hash values: permutations */
        strcpy(k, "abcdefghijkl");
        for (i = 0; i < 12 && id; i++) { int j = id % (12 - i); char t = k[i]; k[i] = k[i + j]; k[i + j] = t; id /= 12 - i; }
        break;
    case 2:  /* bytes above 127 */
        n = 0; k[n++] = (char) 0xC3; do { k[n++] = (char) (0x80 + id % 64); id /= 64; } while (id); break;
    case 3: n = 0; do { k[n++] = (char) (1 + id % 255); id /= 255; } while (id); if (n > 1 && k[n-1] == 1) ; break;
    case 4: memset(k, 'x', 300); sprintf(k + 300, "%ld", id); break;
    case 5: memset(k, (char) 0xFF, id % 350 + 1); sprintf(k + id % 350 + 1, "%ld", id); break;
    case 6: memset(k, 'a', id < 390 ? id : 390); if (id >= 390) sprintf(k + 380, "%ld", id); break;
    default: sprintf(k, "k%ldz", id * 503); break;
    }
    return k;
}
static void *look(Ta *t, const char *key) { char *c = strdup(key); void *r = table_lookup(t, c); free(c); return r; }
static void check_table(int t)
{
    long i, n = 0;
    CHECK(table[t].count == n_in[t], "count of a table");
    CHECK(table[t].tail == 99 + t, "field after the table changed");
    for (i = 0; i < n_ent; i++)
    {
        void *r = look(&table[t], ent[i].key);
        if (in[i] == t) { n++; CHECK(r == &ent[i], "entry not found"); CHECK(ent[i].id == i, "entry changed"); }
        else CHECK(r == NULL, "entry found that is not in the table");
    }
    CHECK(n == n_in[t], "model");
}
static void check_tarray(int t)
{
    long i; char *seen = calloc(n_ent + 1, 1);
    if (n_in[t])
    {
        CHECK(table[t].array != NULL, "no array");
        for (i = 0; i < n_in[t]; i++)
        {
            En *e = table[t].array[i];
            CHECK(e >= ent && e < ent + n_ent, "foreign pointer in the array of a table");
            CHECK(in[e->id] == t, "entry of the array not in the table");
            CHECK(!seen[e->id], "entry twice in the array");
            seen[e->id] = 1;
        }
    }
    free(seen);
}
static int t_emptying; static char *t_given; static long t_n;
static void t_take(e) En *e; { CHECK(in[e->id] == t_emptying && !t_given[e->id], "entry given out wrongly while emptying"); t_given[e->id] = 1; t_n++; }
static void tables(long ops, long np)
{
    long i, k, stats[5] = {0}; int t; int style0 = rnd(9);
    n_ent = np; ent = calloc(np, sizeof(En)); in = calloc(np, sizeof(int)); t_given = calloc(np, 1);
    for (i = 0; i < np; i++) { long j; ent[i].id = i; in[i] = -1; ent[i].key = make_key(i, style0 < 8 ? style0 : (int) (i % 8));
        if (style0 == 8) { char *s = calloc(1, 440); sprintf(s, "%c%s", (char) ('A' + i % 8), ent[i].key); ent[i].key = s; } }
    for (t = 0; t < 2; t++) { memset(&table[t], t ? 0xEE : 0, sizeof table[t]); table[t].tail = 99 + t; if (t) table_initialize(&table[t]); }
    for (step = 1; step <= ops; step++)
    {
        int op = rnd(100); int grow = (step / (np + 1)) % 2 == 0;
        t = rnd(2); k = rnd(np);
        if (op < (grow ? 55 : 25)) { if (in[k] < 0) { table_insert(&table[t], &ent[k]); in[k] = t; n_in[t]++; stats[0]++; } }
        else if (op < 70) { if (in[k] >= 0) { table_remove(&table[(int) in[k]], &ent[k]); n_in[in[k]]--; in[k] = -1; stats[1]++; } }
        else if (op < 85)
        {
            char mut[500]; void *r = look(&table[t], ent[k].key);
            CHECK(r == (in[k] == t ? (void *) &ent[k] : NULL), "look-up");
            /* keys that are not there at all: longer, shorter, with another byte */
            strcpy(mut, ent[k].key); strcat(mut, "\001\002"); CHECK(look(&table[t], mut) == NULL, "look-up of a longer key");
            strcpy(mut, ent[k].key); if (mut[0]) { long j; int same = 0; mut[rnd(strlen(mut))] ^= 0x80; for (j = 0; j < np; j++) if (!strcmp(mut, ent[j].key)) same = 1; if (mut[0] && !same) CHECK(look(&table[t], mut) == NULL, "look-up of another key"); }
            stats[2]++;
        }
        else if (op < 97) { table_in_array(&table[t]); check_tarray(t); if (rnd(2)) { table_in_array(&table[t]); check_tarray(t); } stats[3]++; }
        else if (rnd(8) == 0)
        {
            t_emptying = t; t_n = 0; memset(t_given, 0, np); table_empty(&table[t], t_take);
            CHECK(t_n == n_in[t], "entries lost while emptying");
            for (i = 0; i < np; i++) if (in[i] == t) in[i] = -1;
            n_in[t] = 0; stats[4]++;
        }
        if (step % (np / 4 + 1) == 0 || op >= 97) { check_table(0); check_table(1); }
    }
    printf("ok insert %ld remove %ld lookup %ld array %ld empty %ld keys %ld style %d\n", stats[0], stats[1], stats[2], stats[3], stats[4], np, style0);
}
/* ------------------------------------------------------------------ sort */
typedef struct { long v, at; long seen; } Rec;
static int mode; static long compares;
/* an adversary (M. D. McIlroy, "A killer adversary for quicksort", 1999) that decides the values while the array is
   being sorted, such that the chosen references are as bad as can be; its answers are consistent with each other */
static long gas, solid; static Rec *candidate;
static void decide(a, b) Rec *a, *b;
{
    if (a->v == gas && b->v == gas) { if (a == candidate) a->v = solid++; else b->v = solid++; }
    if (a->v == gas) candidate = a; else if (b->v == gas) candidate = b;
}
static int cmp(a, b) Rec *a, *b;
{
    long x, y, d;
    compares++;
    if (gas && a != b) decide(a, b);
    x = a->v; y = b->v;
    if (mode & 1) { d = x; x = y; y = d; }
    if (x == y) return 0;
    if (mode & 2) return x < y ? -2147483647 - 1 : 2147483647;
    return x < y ? -1 : 1;
}
static void sorts(long ops, long np)
{
    long total = 0, i; Rec *rec = calloc(np + 1, sizeof(Rec)); Rec **arr = calloc(np + 3, sizeof(Rec *));
    Rec lo, hi;
    for (step = 1; step <= ops; step++)
    {
        long n = step <= 70 ? step - 1 : step % 5 == 0 ? np : (long) rnd(np + 1);
        int shape = rnd(13);
        if (n > np) n = np;
        mode = rnd(4); compares = 0; gas = 0;
        if (shape == 12) { if (n > 2500) n = 2500; gas = n + 1; solid = 1; candidate = NULL; }
        for (i = 0; i < n; i++)
        {
            long v;
            switch (shape)
            {
            case 0: v = i; break;
            case 1: v = n - i; break;
            case 2: v = 5; break;
            case 3: v = i < n / 2 ? i : n - i; break;
            case 4: v = i % 7; break;
            case 5: v = rnd(2); break;
            case 6: v = rnd(n + 1); break;
            case 7: v = i ^ 1; break;
            case 8: v = i == n / 2 ? -1 : i; break;
            case 9: v = (long) rnd(1UL << 40) - (1L << 39); break;
            case 12: v = gas; break;
            case 10: v = i < n - 3 ? i : (long) rnd(n); break;
            default: v = (i * 7919) % (n + 1); break;
            }
            rec[i].v = v; rec[i].at = i; rec[i].seen = 0; arr[i + 1] = &rec[i];
        }
        arr[0] = &lo; arr[n + 1] = &hi;
        sort((long) n, (void **) (arr + 1), cmp);
        if (gas)
        {
            /* the order the adversary decided on, as a fixed one */
            for (i = 0; i < n; i++) { if (rec[i].v == gas) rec[i].v = solid++; arr[i + 1] = &rec[i]; }
            gas = 0;
            sort((long) n, (void **) (arr + 1), cmp);
        }
        CHECK(arr[0] == &lo && arr[n + 1] == &hi, "sort touches memory around the array");
        for (i = 1; i <= n; i++)
        {
            CHECK(arr[i] >= rec && arr[i] < rec + n, "sort brings in a foreign pointer");
            CHECK(!arr[i]->seen, "sort duplicates an element"); arr[i]->seen = 1;
            CHECK(rec[arr[i] - rec].at == arr[i] - rec, "sort changes an element");
            if (i > 1) CHECK(cmp(arr[i - 1], arr[i]) <= 0, "sort leaves elements out of order");
        }
        total += n;
    }
    printf("ok arrays %ld elements %ld\n", ops, total);
}
int main(int argc, char **argv)
{
    long ops = atol(argv[3]), np = atol(argv[4]);
    rs = strtoull(argv[2], NULL, 10) * 2654435761ULL + 88172645463325252ULL; { int i; for (i = 0; i < 20; i++) rnd(2); }
    if (argv[1][0] == 'l') lists(ops, np); else if (argv[1][0] == 't') tables(ops, np); else sorts(ops, np);
    return 0;
}

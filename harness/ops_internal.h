/* Operations on the internal API that the README documents. */
#include "jsonpath_evaluator.h"
#include "jsonpath_parser.h"

static void emit_ast(ASTNode* n) {
    if (n == NULL) { rec('n', "", 0); return; }
    char b[64];
    switch (n->node_type) {
        case jnt_number: snprintf(b, sizeof b, "%.17g", n->number); rec('#', b, strlen(b)); break;
        case jnt_string: recs('s', n->string); break;
        case jnt_id: recs('i', n->string); break;
        case jnt_variable: recs('v', n->string); break;
        case jnt_operator: { const char* nm[] = {"||","&&","!","==","<",">","!=","<=",">=","+","-","*","/","%","|"};
            recs('p', nm[n->opt]); break; }
        case jnt_root: recs('t', "root"); break;
        case jnt_concat: recs('t', "concat"); break;
        case jnt_parent_concat: recs('t', "pconcat"); break;
        case jnt_predicate: recs('t', "pred"); break;
        case jnt_wildcard: recs('t', "wild"); break;
        case jnt_reference: recs('t', "ref"); break;
        case jnt_script: recs('t', "script"); break;
        case jnt_fliter: recs('t', "filter"); break;
        case jnt_range: recs('t', "range"); break;
        default: recs('t', "?"); break;
    }
    emit_ast(n->left); emit_ast(n->right);
}
static void emit_tuples(TupleList* tl, char* stream) {
    int n = getTupleListSize(tl);
    for (int i = 0; i < n; i++) {
        Tuple t = getTuple(tl, i);
        reci('S', t.state);
        if (t.start_position == -1) recs('x', t.text);
        else reci('V', t.start_position);
    }
}
static int type_bits(int32_t t) {
    return (isDFAOutputType(t) ? 1 : 0) | (isDFAOutputValueType(t) ? 2 : 0) | (isDFAConditionType(t) ? 4 : 0) | (isDFAPredicateType(t) ? 8 : 0);
}
static void emit_dfa(JSONQueryDFA* d, JSONQueryDFAContext* c) {
    uint32_t S = getDFAStatesNumber(d), I = getDFAInputsNumber(d);
    reci('d', S); reci('d', I);
    for (uint32_t j = 3; j < I; j++) recs('k', getDFAInputType(d, j));
    for (uint32_t s = 0; s < S; s++) {
        JSONQueryIndexPair p = getDFAArrayIndex(d, s);
        int32_t t = getDFAAcceptType(d, s);
        reci('a', type_bits(t));
        reci('l', p.lower); reci('u', p.upper);
        for (uint32_t j = 1; j < I; j++) reci('e', dfaNextState(d, s, j));
        reci('A', dfaNextStateByStr(d, s, DFA_ARRAY));
        reci('O', dfaNextStateByStr(d, s, "\x01no such key\x01"));
        for (uint32_t j = 3; j < I; j++) reci('E', dfaNextStateByStr(d, s, getDFAInputType(d, j)));
    }
    int np = getContextSizeOfPredicateStates(c);
    reci('P', np);
    for (int i = 0; i < np; i++) {
        int st = getContextPredicateStates(c, i);
        reci('q', st);
        int m = getContextSizeOfMapping(c, st);
        reci('m', m);
        for (int j = 0; j < m; j++) {
            int cs = getContextValueOfMapping(c, st, j);
            reci('g', cs);
            recs('h', getContextSubtree(c, cs)->string);
        }
        emit_ast(getContextSubtree(c, st));
    }
}

static void emit_tagged(char tag, Output* o) {
    int n = getOutputSize(o);
    for (int i = 0; i < n; i++) recs(tag, getOutputElement(o, i));
}
/* tuples -> results, the way the README puts the components together */
static int pipe_quiet, pipe_results;
static void pipe_filter(char tag, TupleList* tl, JSONQueryDFAContext* c) {
    PredicateFilter pf; initPredicateFilter(&pf, tl, c);
    Output* o = generateFinalOutput(&pf);
    if (pipe_quiet) pipe_results += getOutputSize(o);
    else { rec('P', &tag, 1); emit_tagged(tag, o); }
    destroyPredicateFilter(&pf); freeOutput(o);
}
static void pipe_all(void) {
    /* the components one by one.  2=query 3=document 4=cores 5=training document */
    char* q = dup_field(2); int nc = (int)ifield(4);
    JSONQueryDFAContext* c = malloc(sizeof *c);
    JSONQueryDFA* d = buildJSONQueryDFA(q, c);
    char* stream = loadInputStream(file_field(0, 3));
    StreamingAutomaton sa; initStreamingAutomaton(&sa, d);
    executeAutomaton(&sa, stream, CLOSE);
    pipe_filter('a', sa.tuple_list, c);
    destroyStreamingAutomaton(&sa);
    StreamingAutomaton sb; initStreamingAutomaton(&sb, d);
    executeAutomaton(&sb, stream, OPEN);
    pipe_filter('b', sb.tuple_list, c);
    StreamingAutomaton st; initStreamingAutomaton(&st, d);
    char* train = loadInputStream(file_field(1, 5));
    executeAutomaton(&st, train, OPEN);
    int knows = st.constraint_table ? st.constraint_table->num_constraint_info : -1;
    executeAutomaton(&st, stream, CLOSE);      /* what was learnt stays */
    if ((st.constraint_table ? st.constraint_table->num_constraint_info : -1) != knows) rec('P', "learnt", 6);
    ConstraintTable* cts[] = { NULL, sb.constraint_table, st.constraint_table };
    for (int k = 0; k < 4; k++) {
        PartitionInfo pi = k == 0 ? partitionInputStream(stream, nc) : partitionFile(fpath[0], nc);
        ParallelAutomata pa; initParallelAutomata(&pa, d);
        executeParallelAutomata(&pa, pi, k ? cts[k - 1] : NULL);
        pipe_filter('c' + k, pa.tuple_list, c);
        destroyParallelAutomata(&pa);
        freeInputChunks(pi);
    }
    /* one automaton, several times: the results of all, one after the other */
    StreamingAutomaton sc; initStreamingAutomaton(&sc, d);
    executeAutomaton(&sc, stream, CLOSE); executeAutomaton(&sc, stream, OPEN); executeAutomaton(&sc, stream, OPEN);
    pipe_filter('g', sc.tuple_list, c);
    freeConstraintTable(sc.constraint_table); destroyStreamingAutomaton(&sc);
    PartitionInfo pi = partitionFile(fpath[0], nc);
    ParallelAutomata pa; initParallelAutomata(&pa, d);
    executeParallelAutomata(&pa, pi, NULL); executeParallelAutomata(&pa, pi, sb.constraint_table);
    pipe_filter('h', pa.tuple_list, c);
    destroyParallelAutomata(&pa); freeInputChunks(pi);
    /* loads of a bounded size, one filter at the end */
    int pos = 0; char* piece;
    StreamingAutomaton sd; initStreamingAutomaton(&sd, d);
    while ((piece = loadBoundedInputStream(fpath[0], &pos))) { executeAutomaton(&sd, piece, CLOSE); memset(piece, 'Z', strlen(piece)); free(piece); }
    pipe_filter('i', sd.tuple_list, c); destroyStreamingAutomaton(&sd);
    ParallelAutomata pb; initParallelAutomata(&pb, d); pos = 0;
    while ((piece = loadBoundedInputStream(fpath[0], &pos))) {
        pi = partitionInputStream(piece, nc); memset(piece, 'Z', strlen(piece)); free(piece);
        executeParallelAutomata(&pb, pi, st.constraint_table); freeInputChunks(pi);
    }
    if (pb.tuple_list) pipe_filter('j', pb.tuple_list, c); else { if (!pipe_quiet) rec('P', "j", 1); }
    destroyParallelAutomata(&pb);
    /* the query by way of its tree */
    ASTNode* tree = analysisJSONPath(q);
    JSONQueryDFAContext* c2 = malloc(sizeof *c2);
    JSONQueryDFA* d2 = buildJSONQueryDFAFromAST(tree, c2);
    StreamingAutomaton se; initStreamingAutomaton(&se, d2);
    executeAutomaton(&se, stream, CLOSE);
    pipe_filter('k', se.tuple_list, c2); destroyStreamingAutomaton(&se);
    destroyJSONQueryDFAContext(c2); free(c2); freeJSONQueryDFA(&d2);
    freeConstraintTable(sb.constraint_table); freeConstraintTable(st.constraint_table);
    destroyStreamingAutomaton(&sb); destroyStreamingAutomaton(&st);
    ASTNodeFree(tree);
    free(stream); free(train);
    destroyJSONQueryDFAContext(c); free(c); freeJSONQueryDFA(&d); free(q);
}
static int internal_op(void) {
    if (is("lex")) {
        char* s = dup_field(2);
        Lexer lx; initLexer(&lx, s);
        for (uint32_t i = 0; i < f[2].n + 2; i++) {
            Token t = nextToken(&lx);
            if (t.token_type == END) break;
            reci('t', t.token_type);
            reci('p', lx.next_start - lx.begin_stream);
            if (t.token_type == KY || t.token_type == PRI) recs('s', t.content);
        }
        destroyLexer(&lx); free(s);
    } else if (is("ast")) {
        char* q = dup_field(2);
        ASTNode* r = analysisJSONPath(q);
        emit_ast(r);
        free(q);
    } else if (is("dfa")) {
        char* q = dup_field(2);
        JSONQueryDFAContext* c = malloc(sizeof *c);
        JSONQueryDFA* d = buildJSONQueryDFA(q, c);
        if (!d) { rec('!', "null", 4); return 1; }
        emit_dfa(d, c);
        destoryJSONQueryDFA(d);
    } else if (is("walk")) {
        /* 2=query, then label paths: each field is a 0x1f-separated list, "\x02" = array */
        char* q = dup_field(2);
        JSONQueryDFAContext* c = malloc(sizeof *c);
        JSONQueryDFA* d = buildJSONQueryDFA(q, c);
        for (uint32_t i = 3; i < nf; i++) {
            char* w = dup_field(i); int st = 1; char* save = NULL;
            for (char* t = strtok_r(w, "\x1f", &save); t; t = strtok_r(NULL, "\x1f", &save)) {
                st = dfaNextStateByStr(d, st, strcmp(t, "\x02") == 0 ? DFA_ARRAY : t);
                if (st == 0) break;
            }
            JSONQueryIndexPair p = getDFAArrayIndex(d, st);
            reci('s', st); reci('a', st ? type_bits(getDFAAcceptType(d, st)) : 0); reci('l', p.lower); reci('u', p.upper);
            free(w);
        }
        destoryJSONQueryDFA(d);
    } else if (is("train")) {
        /* what a constraint table knows.  2=query 3=training document 4..=names (\x02 = arrays) */
        char* q = dup_field(2);
        PathProcessor* pp = createPathProcessor(q);
        ConstraintTable* ct = collectDataConstraints(pp, file_field(1, 3));
        for (uint32_t i = 4; i < nf; i++) {
            char* w = dup_field(i); ConstraintInfo ci;
            ci.type = strcmp(w, "\x02") == 0 ? LB : KY; ci.token_name = w; ci.num_state = -1; ci.state_set = NULL;
            updateStateInfo(ct, &ci);
            char* b = malloc(16 * (ci.num_state > 0 ? ci.num_state : 0) + 16); int l = 0; b[0] = 0;
            for (int j = 0; j < ci.num_state; j++) l += sprintf(b + l, "%d ", ci.state_set[j]);
            reci('n', ci.num_state); recs('S', b);
            free(b); free(w);
        }
        /* printing must not disturb it */
        printConstraintTable(ct);
        freeConstraintTable(ct); freePathProcessor(pp); free(q);
    } else if (is("eval")) {
        /* 2 = query "$[?(...)]", then name,value pairs (value "\x01" = unset) */
        char* q = dup_field(2);
        ASTNode* r = analysisJSONPath(q);
        evaluatorModifyReference(r);
        ASTNode* e = r->right->left;
        int n = (nf - 3) / 2;
        PredicateCondition* pc = malloc((n + 1) * sizeof *pc);
        for (int i = 0; i < n; i++) {
            pc[i].name = dup_field(3 + 2 * i); pc[i].text = dup_field(4 + 2 * i);
            if (strcmp(pc[i].text, "\x01") == 0) { free(pc[i].text); pc[i].text = NULL; }
        }
        pc[n].name = NULL; pc[n].text = NULL;
        reci('b', evaluateExpression(e, pc) ? 1 : 0);
        reci('b', evaluateExpression(e, pc) ? 1 : 0);   /* evaluation must not consume its inputs */
        clearPredicateCondtion(pc);
        int cleared = 1;
        for (int i = 0; i < n; i++) if (pc[i].text) cleared = 0;
        reci('z', cleared);
    } else if (is("pipe")) {
        pipe_all();
    } else if (is("pipecycles")) {
        /* the same several times, 6=how often; live blocks after each */
        if (!counted()) die("no counter in this build");
        long live[64]; int n = (int)ifield(6);
        pipe_quiet = 1;
        for (int k = 0; k < n && k < 64; k++) { pipe_all(); live[k] = jps_live_blocks(); }
        for (int k = 0; k < n && k < 64; k++) reci('L', live[k]);
        reci('c', pipe_results);
    } else if (is("auto")) {
        /* streaming automaton at the internal API: 2=query 3=train? [4..]=chunks */
        char* q = dup_field(2); int open = (int)ifield(3);
        JSONQueryDFAContext* c = malloc(sizeof *c);
        JSONQueryDFA* d = buildJSONQueryDFA(q, c);
        StreamingAutomaton sa; initStreamingAutomaton(&sa, d);
        for (uint32_t i = 4; i < nf; i++) {
            char* s = dup_field(i);
            executeAutomaton(&sa, s, open ? OPEN : CLOSE);
            reci('y', syntaxStackSize(&sa.syntax_stack));
            reci('Y', sa.query_stack.top_item + 1);
            reci('w', sa.query_state); reci('W', sa.count);
            free(s);
        }
        emit_tuples(sa.tuple_list, NULL);
        if (open) {
            ConstraintTable* ct = sa.constraint_table;
            reci('C', ct->num_constraint_info);
            for (int i = 0; i < ct->num_constraint_info; i++) {
                ConstraintInfo* x = &ct->constraint_info[i];
                reci('T', x->type); if (x->type == KY) recs('N', x->token_name); else rec('N', "", 0);
                reci('n', x->num_state);
                for (int j = 0; j < x->num_state; j++) reci('j', x->state_set[j]);
            }
        }
    } else return 0;
    return 1;
}

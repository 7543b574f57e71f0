From 17c82cd416bf4eda03523a6082ee8a9113aa6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 01/45] fix: store matched texts and tuples of any length and
 count

---
 JSONQuery/output.h                      | 24 +++++++++-------
 JSONQuery/parallel_automata_execution.h |  7 +++--
 JSONQuery/predicate.h                   |  2 +-
 JSONQuery/tuple_list.h                  | 38 +++++++++++++++++++------
 4 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index d2bed6a..f6d63fb 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -1,31 +1,28 @@
 #ifndef __OUTPUT_H__
 #define __OUTPUT_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#define MAX_OUTPUT 800000 //290000
-#define MAX_STRING 1000
+#define INIT_OUTPUT 1024 //initial capacity of an output list
 
 typedef struct Output{
     char** element;
+    int capacity;
     int count;
 }Output;
 
 static inline void initOutput(Output* output)
 {
-    output->element = (char**)malloc(MAX_OUTPUT*sizeof(char*));
-    int i;
-    for(i=0; i<MAX_OUTPUT; i++)
-    {
-        output->element[i] = (char*)malloc(MAX_STRING*sizeof(char));
-    }
+    output->element = (char**)malloc(INIT_OUTPUT*sizeof(char*));
+    output->capacity = INIT_OUTPUT;
     output->count = -1;
 }
 
 static inline void destroyOutput(Output* output)
 {
     int i;
-    for(i=0; i<MAX_OUTPUT; i++)
+    for(i=0; i<=output->count; i++)
     {
         if(output->element[i]!=NULL) free(output->element[i]);
     }
@@ -48,7 +45,12 @@ static inline void freeOutput(Output* output)
 static inline void addOutputElement(Output* output, char* text)
 {
     int index = (++output->count);
-    strcopy(text, output->element[index]); //printf("text %s %d\n", text, index);
+    if(index==output->capacity)
+    {
+        output->capacity *= 2;
+        output->element = (char**)realloc(output->element, output->capacity*sizeof(char*));
+    }
+    output->element[index] = allocate_and_copy(text); //printf("text %s %d\n", text, index);
 }
 
 static inline char* getOutputElement(Output* output, int index)
@@ -58,7 +60,7 @@ static inline char* getOutputElement(Output* output, int index)
 
 static inline void removeOutputElement(Output* output, int number)
 {
-    output->count-=number; 
+    while(number-->0) free(output->element[output->count--]);
 }
 
 static inline int getOutputSize(Output* output)
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..7ebd7c0 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -318,7 +318,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 //check array indexes
                 if(!(lower==0&&upper==0))
                 {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
+                    if(tuple.text!=NULL&&(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
                         qs.node[qs_elt.start].count++; 
                         if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
                         continue;
@@ -338,8 +338,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
                 {   
-                    substring_in_place(tuple.text, thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, tuple.text); 
+                    char* text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position);
+                    addTuple(tuple_list, tuple.state, text);
+                    free(text);
                 }
                 sum++;
             }
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..52a4a47 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -103,7 +103,7 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
             free(pf->predicate_conditions[i]);
         }
     } 
-    if(pf->buffer!=NULL) free(pf->buffer);
+    if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
 Output* generateFinalOutput(PredicateFilter* pf);
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eab925..3e8906a 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -1,10 +1,10 @@
 #ifndef __TUPLE_LIST_H__
 #define __TUPLE_LIST_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#define MAX_TUPLE_LIST 5000000
-#define MAX_TEXT 1000
+#define INIT_TUPLE_LIST 1024 //initial capacity of a tuple list
 
 typedef struct Tuple{
     //starting index for string text
@@ -12,18 +12,21 @@ typedef struct Tuple{
     //ending index for string text
     int end_position;
     int state;
-    char text[MAX_TEXT];
+    //NULL for a virtual tuple
+    char* text;
     int next_index;
 }Tuple;
 
 typedef struct TupleList{
-    Tuple element[MAX_TUPLE_LIST];
+    Tuple* element;
+    int capacity;
     int count;
 }TupleList;
 
 static inline void initTupleList(TupleList* tl)
 {
-    //tl->element = (Tuple*)malloc(MAX_TUPLE_LIST*sizeof(Tuple));
+    tl->element = (Tuple*)malloc(INIT_TUPLE_LIST*sizeof(Tuple));
+    tl->capacity = INIT_TUPLE_LIST;
     tl->count = -1;
 }
 
@@ -36,24 +39,43 @@ static inline TupleList* createTupleList()
 
 static inline void freeTupleList(TupleList* tl)
 {
+    int i;
+    for(i=0; i<=tl->count; i++)
+    {
+        if(tl->element[i].text!=NULL) free(tl->element[i].text);
+    }
+    free(tl->element);
     free(tl);
 }
 
+//get the index for the next new tuple
+static inline int nextTupleIndex(TupleList* tl)
+{
+    int index = (++tl->count);
+    if(index==tl->capacity)
+    {
+        tl->capacity *= 2;
+        tl->element = (Tuple*)realloc(tl->element, tl->capacity*sizeof(Tuple));
+    }
+    return index;
+}
+
 static inline void addTuple(TupleList* tl, int state, char* text)
 { 
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = -1;
-    strcopy(text, tl->element[index].text); 
+    tl->element[index].text = allocate_and_copy(text);
     tl->element[index].next_index  = -1;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
 {
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
+    tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
 }
 
-- 
2.43.0


From b8687a26b5d9d08939d59f834d257fc367cf59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 02/45] fix: lexer keeps signs and whole primitives, accepts
 line breaks, and bounds no token

---
 JSONQuery/lexing.c | 37 ++++++++++++++++++-------------------
 JSONQuery/lexing.h |  5 ++---
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..150cc7a 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -5,7 +5,10 @@
 #include "utility.h"
 #include "lexing.h"
 
-#define MAX_PRIMITIVE 40000
+static inline int isSpace(char ch)
+{
+    return ch==' '||ch=='\t'||ch=='\n'||ch=='\r';
+}
 
 Token nextToken(Lexer* lexer)
 {
@@ -19,7 +22,6 @@ Token nextToken(Lexer* lexer)
     char* token_pointer = p; 
     int tempcount;
     Token token;
-    char sub1[MAX_PRIMITIVE];
     for (; p < end; p++)
     {   
         switch(state)
@@ -79,14 +81,16 @@ Token nextToken(Lexer* lexer)
                         state = 1;  //printf("to 1\n");
                         break;
                     case ' ':
-                    case '\t':  //jump space
+                    case '\t':
+                    case '\n':
+                    case '\r':  //jump space
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         start = token_pointer;
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if(*p=='-'||(*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
                         else
                         {
                             token_len = p - start + 1;
@@ -106,7 +110,7 @@ Token nextToken(Lexer* lexer)
                         {
                             char* pointer = p-2;
                             int count = 1;
-                            while(*pointer=='\\'){
+                            while(pointer>=head&&*pointer=='\\'){
                                 count++;
                                 --pointer;
                             }
@@ -115,12 +119,12 @@ Token nextToken(Lexer* lexer)
                         //string is found 
                         tempcount = p-start;
                         templen = tempcount; 
-                        substring_in_place(sub1, start , 1, tempcount);     
+                        substring_in_place(lexer->content+1, start , 1, tempcount);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(isSpace(*(p+1))) //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
@@ -129,7 +133,7 @@ Token nextToken(Lexer* lexer)
                         } 
                         if(*(p+1)==':') //it is a key field
                         {
-                            strcopy(sub1,lexer->content);
+                            memmove(lexer->content, lexer->content+1, templen);
                             token_len = p - start+1;
                             token_pointer = start + token_len;
                             lexer->current_start = lexer->current_pointer+1; 
@@ -144,9 +148,8 @@ Token nextToken(Lexer* lexer)
                         else //primitive value
                         {
                             lexer->content[0]='"';
-                            strcopy(sub1, lexer->content+1);
-                            lexer->content[strlen(lexer->content)]='"'; 
-                            lexer->content[strlen(lexer->content)+1]='\0'; 
+                            lexer->content[templen]='"';
+                            lexer->content[templen+1]='\0';
                             lexer->current_start = lexer->current_pointer+1; 
                             lexer->lex_state = 0; 
                             lexer->next_start = p+1; 
@@ -171,15 +174,11 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
-                        int tempcount = p-start;
-                        templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
-                        strcopy(sub1,lexer->content);
+                        templen = p-token_pointer;
+                        substring_in_place(lexer->content, token_pointer, 0, templen);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         lexer->current_pointer = token_pointer;
diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index 703b90f..2644f27 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -15,8 +15,6 @@
 #define ARRAY 9 //[]
 #define END -1  //ends
 
-#define MAX_SIZE_PRIMITIVE 4000
-
 /* structure for tokens */
 typedef struct Lexer{
     char* current_pointer;
@@ -37,7 +35,8 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->begin_stream = json_stream;
     lexer->end_stream = json_stream + strlen(json_stream);
     lexer->lex_state = 0;
-    lexer->content = (char*)malloc(MAX_SIZE_PRIMITIVE*sizeof(char));
+    //no token is longer than the stream (plus some room for the terminators)
+    lexer->content = (char*)malloc((lexer->end_stream-json_stream+4)*sizeof(char));
 }
 
 static inline void destroyLexer(Lexer* lexer)
-- 
2.43.0


From 23bd1a28de3dc9fbf2dc9125a505b27216c2c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 03/45] fix: substring offsets count from the start of the
 text, leading blanks included

---
 JSONQuery/utility.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -28,7 +28,6 @@ char* substring(char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     char* temp1=NULL; 
     temp1=(char*)malloc((end-begin+1)*sizeof(char));
     for (j = 0,i = begin; i < end; i++,j++)
@@ -48,7 +47,6 @@ void substring_in_place(char* desc, char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     for (j = 0,i = begin; i < end; i++,j++)
     {
         desc[j]=temp[i];
-- 
2.43.0


From 5a3ad709c73082dd9bb38f4c28ffac4c141f1001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:10 +0000
Subject: [PATCH 04/45] fix: a single array index selects that element

---
 DFABuilder/src/dfa_builder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..767e078 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -89,7 +89,7 @@ struct StackContext {
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
 
-    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), input_mapping(3), array_range(0) {}
+    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), last_st_generated(false), last_id_generated(0), input_mapping(3), array_range(0), state_handle_now(0) {}
     ~StackContext() {}
 
     void push(StackElement&& s) {
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int begin = p->number;
+                    push({set_array_index, begin, begin + 1});
+                    create_dfa();
+                    array_range[model->size()-1] = {begin, begin + 1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From c67e9cc8e97fb5bba9ffc62f7ae2f5f9268cd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 05/45] fix: a path ending in a filter returns the elements
 that pass it

---
 DFABuilder/include/dfa.h                | 11 ++++++++++-
 DFABuilder/src/dfa_builder.cpp          |  5 +++--
 JSONQuery/parallel_automata_execution.h |  4 ++--
 JSONQuery/predicate.c                   |  2 ++
 JSONQuery/streaming_automaton.c         |  8 ++++----
 JSONQuery/worker_automaton.c            | 10 +++++-----
 6 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 18c183c..68ab72e 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -30,6 +30,15 @@ typedef struct JSONQueryDFA {
 #define DFA_OUTPUT_CANDIDATE (1)
 #define DFA_CONDITION (2)
 #define DFA_PREDICATE (3)
+#define DFA_OUTPUT_PREDICATE (6) // an element that is filtered and output
+
+static inline bool isDFAOutputType(int32_t type) {
+    return type == DFA_OUTPUT_CANDIDATE || type == DFA_OUTPUT_PREDICATE;
+}
+
+static inline bool isDFAPredicateType(int32_t type) {
+    return type == DFA_PREDICATE || type == DFA_OUTPUT_PREDICATE;
+}
 
 static inline void initJSONQueryDFA(JSONQueryDFA* dfa, uint32_t states_num, uint32_t inputs_num) {
     dfa->states_num = states_num;
@@ -134,7 +143,7 @@ static inline void printDFA(JSONQueryDFA* dfa) {
             printf("!");
         if (getDFAAcceptType(dfa, i) == DFA_CONDITION) 
             printf("*");
-        if (getDFAAcceptType(dfa, i) == DFA_PREDICATE) 
+        if (isDFAPredicateType(getDFAAcceptType(dfa, i))) 
             printf("[");
         for (int j = 1; j< inputs; ++j) {
             int next = dfaNextState(dfa, i, j);
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 767e078..b40873a 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -300,7 +300,8 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
         dfa->stop_state[i] = stop_state;
         if (stop_state) {
             if (ctx->output_states.find(stop_state) != ctx->output_states.end())
-                dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
+                // the path may end with a filter
+                dfa->accept_type[i] = ctx->states_mapping.count(stop_state-1) ? DFA_OUTPUT_PREDICATE : DFA_OUTPUT_CANDIDATE;
             else {
                 dfa->accept_type[i] = DFA_CONDITION;
                 for (int j = 0; j < cpd_dfa->getStateSum(); ++j) {
@@ -355,7 +356,7 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
                     context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
                 }
             }
-            if (m_dfa->accept_type[i] == DFA_PREDICATE) {
+            if (isDFAPredicateType(m_dfa->accept_type[i])) {
                 int k = context->array_predicate_states.value_size++;
                 context->array_predicate_states.value[k] = i;
             }
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 7ebd7c0..e4f4896 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -174,7 +174,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE)
+                            if(isDFAOutputType(matched_type))
                             {  
                                 int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
                                 int right_len = us.index+1;
@@ -206,7 +206,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             //increase array counter 
                             qs.node[qs_elt.start].count++;  
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_PREDICATE)
+                            if(isDFAPredicateType(matched_type))
                             {
                                 sum++; 
                                 addTupleInfo(&qs, node_index, c_node.query_state, "}", tuple_list);
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..21abec5 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -81,6 +81,8 @@ Output* generateFinalOutput(PredicateFilter* pf)
         
             //check whether the current state is a predicate condition
             ASTNode* node = getContextSubtree(pf->ctx, state);
+            //the output of a filtered element is not a condition
+            if(pf->predicate_conditions[state]!=NULL) node = NULL;
             int index = 0;
             while(node!=NULL)
             {  
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..25026b2 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -168,11 +168,11 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 {
                     obj_s(ss);  
                     int matched_type = getMatchedType(qa,qs_elt);
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    if(isDFAOutputType(matched_type))
                     { 
                         qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1; 
                     }
-                    else if(matched_type==DFA_PREDICATE)
+                    if(isDFAPredicateType(matched_type))
                     {
                         addTuple(tl, qs_elt->query_state, "{"); 
                     }
@@ -184,7 +184,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 break;
             case RCB:   //right curly branket
                 //it is a matched output
-                if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE)
+                if(qs_elt->matched_start!=INVALID && isDFAOutputType(getMatchedType(qa, qs_elt)))
                 {
                     int position = lexer.next_start - lexer.begin_stream;
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
@@ -209,7 +209,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     {
                         elt_obj_e(ss);
                         increaseArrayCounter(qs_elt);
-                        if(getMatchedType(qa, qs_elt)==DFA_PREDICATE)
+                        if(isDFAPredicateType(getMatchedType(qa, qs_elt)))
                         {  
                             addTuple(tl, qs_elt->query_state, "}");
                         }
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..645e12e 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -194,11 +194,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(isDFAOutputType(matched_type) ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
                             qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
                         }
-                        else if(matched_type==DFA_PREDICATE)
+                        if(isDFAPredicateType(matched_type))
                         {   
                             addTupleInfo(&qs, start_index, c_node.query_state, "{", tl);
                         }
@@ -222,7 +222,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                                if(isDFAOutputType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                                 {  
                                     int matched_end = lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
@@ -293,7 +293,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
                                 qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node); 
-                                if(matched_type==DFA_PREDICATE)
+                                if(isDFAPredicateType(matched_type))
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
@@ -325,7 +325,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
 				qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_PREDICATE)
+                                if(isDFAPredicateType(matched_type))
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-- 
2.43.0


From 21848225c5c6c58fcce37c07ecbaedbbfef4cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:20 +0000
Subject: [PATCH 06/45] fix: merging a nested property of a filter reads no
 freed node

---
 JSONPathParser/jsonpath_evaluator.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..dac4aa7 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -273,7 +273,7 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
     if (node->node_type == jnt_variable) {
         return NULL;
     }
-    if (node->node_type == jnt_concat) {
+    if (node->node_type == jnt_concat && node->right->node_type == jnt_id) {
         if (node->left->node_type == jnt_reference) {
             char* name = (char*) malloc(sizeof(char) * (strlen(node->right->string) + 1));
             strcpy(name, node->right->string);
@@ -285,17 +285,18 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             return new_node;
         } 
         if (node->left->node_type == jnt_variable) {
+            ASTNode* var_node = node->left;
             char* name = (char*) malloc(sizeof(char) * (
-                strlen(node->right->string) + strlen(node->left->string) + 2));
-            strcpy(name, node->left->string);
+                strlen(node->right->string) + strlen(var_node->string) + 2));
+            strcpy(name, var_node->string);
             strcat(name, ".");
             strcat(name, node->right->string);
-            free(node->left->string);
+            free(var_node->string);
             free(node->right->string);
             free(node->right);
             free(node);
-            node->left->string = name;
-            return node->left;
+            var_node->string = name;
+            return var_node;
         }
     }
     return NULL;
-- 
2.43.0


From 5aa2984df30a0b9b1b9732e5cf30d8aebf6623b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 07/45] fix: filters compare and calculate only operands of the
 right type

---
 JSONPathParser/jsonpath_evaluator.h | 30 +++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index dac4aa7..99095da 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -3,6 +3,7 @@
 
 #include "jsonpath_model.h"
 #include <string.h>
+#include <ctype.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -81,13 +82,29 @@ static inline JSONPathValue computeUnaryOperator(JSONPathOperatorType opt, JSONP
     jot_union // node-set union
 */
 
+// order of two numbers or two strings: -1, 0 or 1; 2 for operands that have no order
+static inline int compareValues(JSONPathValue v1, JSONPathValue v2) {
+    if (v1.vtype == v2.vtype && v1.vtype == jvt_number) {
+        if (v1.number < v2.number) return -1;
+        if (v1.number > v2.number) return 1;
+        return (v1.number == v2.number) ? 0 : 2;
+    }
+    if (v1.vtype == v2.vtype && v1.vtype == jvt_string) {
+        int r = strcmp(v1.string, v2.string);
+        return (r > 0) - (r < 0);
+    }
+    return 2;
+}
+
 static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSONPathValue v1, JSONPathValue v2) {
-    JSONPathValue v;
+    JSONPathValue v = {jvt_null};
     // type casting
     if (opt == jot_or || opt == jot_and) {
         v1 = computeTypeCast(v1);
         v2 = computeTypeCast(v2);
     }
+    // only numbers can be calculated
+    if (opt >= jot_add && opt <= jot_mod && (v1.vtype != jvt_number || v2.vtype != jvt_number)) return v;
     // calculate 
     switch (opt) {
         case jot_or:
@@ -118,19 +135,19 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_less:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number < v2.number);
+            v.boolean = (compareValues(v1, v2) == -1);
             return v;
         case jot_greater:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number > v2.number);
+            v.boolean = (compareValues(v1, v2) == 1);
             return v;
         case jot_leq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number <= v2.number);
+            v.boolean = (compareValues(v1, v2) <= 0);
             return v;
         case jot_geq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number >= v2.number);
+            v.boolean = (compareValues(v1, v2) == 0 || compareValues(v1, v2) == 1);
             return v;
         case jot_add:
             v.vtype = jvt_number;
@@ -149,6 +166,7 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
+            if ((long long int)(v2.number) == 0) return v;
             v.vtype = jvt_number;
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
@@ -183,7 +201,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
-- 
2.43.0


From 46ea53514e90ac6e462bf0f602289d0742d45286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 08/45] fix: evaluating a filter frees its value table

---
 JSONPathParser/jsonpath_evaluator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 99095da..46a16ce 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -270,7 +270,11 @@ static inline JSONPathValue calculateExpression(ASTNode* node, JSONPathKeyValueP
 static inline bool evaluateExpression(ASTNode* node, PredicateCondition* conditions) {
     JSONPathKeyValuePair* table = createTableFromConditions(conditions);
     JSONPathValue v = calculateExpression(node, table);
-    return computeTypeCast(v).boolean;
+    bool result = computeTypeCast(v).boolean;
+    for (int i = 0; table[i].key != NULL; ++i)
+        if (table[i].value.vtype == jvt_string) free(table[i].value.string);
+    free(table);
+    return result;
 }
 
 
-- 
2.43.0


From ed97005c0e7a9f8d0b0423f4c636de4a69246610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:42 +0000
Subject: [PATCH 09/45] fix: && binds tighter than ||, and % like * and /

---
 JSONPathParser/parser_j.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..2b4a00e 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,10 +39,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From 4d97070ac520950e25f7f9333d4366112d01da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:19 +0000
Subject: [PATCH 10/45] fix: a condition of a filter can be output as well

---
 DFABuilder/include/Lexer/dfa_mixer.hpp  |  3 ++
 DFABuilder/include/dfa.h                | 14 ++++++++-
 DFABuilder/include/dfa_builder.h        |  5 +++
 DFABuilder/src/Lexer/dfa_mixer.cpp      |  3 ++
 DFABuilder/src/dfa_builder.cpp          | 42 +++++++++++++++++++------
 JSONQuery/parallel_automata_execution.h |  4 +--
 JSONQuery/predicate.c                   | 12 +++++--
 JSONQuery/streaming_automaton.c         | 12 +++----
 JSONQuery/worker_automaton.c            | 12 +++----
 9 files changed, 80 insertions(+), 27 deletions(-)

diff --git a/DFABuilder/include/Lexer/dfa_mixer.hpp b/DFABuilder/include/Lexer/dfa_mixer.hpp
index ecdcc97..f7988e8 100644
--- a/DFABuilder/include/Lexer/dfa_mixer.hpp
+++ b/DFABuilder/include/Lexer/dfa_mixer.hpp
@@ -20,6 +20,9 @@ public:
     virtual void Combine(RegexModel* model);
 
     virtual IPassable* Execute(IPassable* data, IPassable* join_data);
+
+    /// @brief all the rules (from 1) that a state of the main DFA accepts
+    std::map<int, std::vector<int>> accepted;
     
 protected:
     int find_states(std::vector<std::vector<int>>& statelist, int begin, int i, std::vector<int>& newvec);
diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 68ab72e..58b1d32 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -31,9 +31,19 @@ typedef struct JSONQueryDFA {
 #define DFA_CONDITION (2)
 #define DFA_PREDICATE (3)
 #define DFA_OUTPUT_PREDICATE (6) // an element that is filtered and output
+#define DFA_OUTPUT_CONDITION (7) // a condition of a filter that is also output
 
 static inline bool isDFAOutputType(int32_t type) {
-    return type == DFA_OUTPUT_CANDIDATE || type == DFA_OUTPUT_PREDICATE;
+    return type == DFA_OUTPUT_CANDIDATE || type == DFA_OUTPUT_PREDICATE || type == DFA_OUTPUT_CONDITION;
+}
+
+// an output that need not be an object
+static inline bool isDFAOutputValueType(int32_t type) {
+    return type == DFA_OUTPUT_CANDIDATE || type == DFA_OUTPUT_CONDITION;
+}
+
+static inline bool isDFAConditionType(int32_t type) {
+    return type == DFA_CONDITION || type == DFA_OUTPUT_CONDITION;
 }
 
 static inline bool isDFAPredicateType(int32_t type) {
@@ -143,6 +153,8 @@ static inline void printDFA(JSONQueryDFA* dfa) {
             printf("!");
         if (getDFAAcceptType(dfa, i) == DFA_CONDITION) 
             printf("*");
+        if (getDFAAcceptType(dfa, i) == DFA_OUTPUT_CONDITION) 
+            printf("!*");
         if (isDFAPredicateType(getDFAAcceptType(dfa, i))) 
             printf("[");
         for (int j = 1; j< inputs; ++j) {
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..78f28cc 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -18,6 +18,7 @@ typedef struct JSONQueryDFAContext {
     ASTNode** subtrees;
     JSONQueryIntVecPair* states_mapping;
     JSONQueryIntVecPair array_predicate_states;
+    int* output_condition; // states_num : whether a condition is output as well
 } JSONQueryDFAContext;
 
 extern JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context);
@@ -32,6 +33,10 @@ static inline ASTNode* getContextSubtree(JSONQueryDFAContext* ctx, int stop_stat
     return ctx->subtrees[stop_state];
 }
 
+static inline bool isContextOutputCondition(JSONQueryDFAContext* ctx, int stop_state) {
+    return ctx->output_condition[stop_state] != 0;
+}
+
 static inline int getContextSizeOfMapping(JSONQueryDFAContext* ctx, int stop_state) {
     return ctx->states_mapping[stop_state].value_size;
 }
diff --git a/DFABuilder/src/Lexer/dfa_mixer.cpp b/DFABuilder/src/Lexer/dfa_mixer.cpp
index bb94ddd..57b7aec 100644
--- a/DFABuilder/src/Lexer/dfa_mixer.cpp
+++ b/DFABuilder/src/Lexer/dfa_mixer.cpp
@@ -113,6 +113,9 @@ void DFAMixer::Combine(RegexModel* model) {
 }
 
 void DFAMixer::addStopState(RegexModel* model, const std::vector<int>& newvec, int p) {
+    for (int i = 0; i < newvec.size(); ++i)
+        if (newvec[i] != 0 && model->at(i)->dfa->isStopState(newvec[i]) != 0)
+            accepted[p].push_back(i+1);
     for (int i = newvec.size()-1; i >= 0; --i) { // 颠倒优先级
         if (newvec[i] != 0) {
             auto r = model->at(i);
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index b40873a..7c9fabc 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -127,7 +127,11 @@ struct StackContext {
     bool create_dfa(bool in_predicate = false) {
         string s = getOutput();
         if (check.find(s) == check.end()) check[s] = model->size()+1;
-        else return true;
+        else {
+            // a condition of a filter may be output as well
+            if (!in_predicate) { last_st_generated = true; last_id_generated = check[s]; }
+            return true;
+        }
         print();
         last_st_generated = true;
         for (auto& se: st) 
@@ -288,7 +292,15 @@ struct StackContext {
 
 extern "C" {
 
-static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
+// the first condition of a filter among the rules that are accepted, or 0
+static int find_condition(StackContext* ctx, const vector<int>& rules) {
+    for (int rule : rules)
+        if (ctx->tree_mapping[rule-1] && ctx->states_mapping.count(rule-1) == 0)
+            return rule;
+    return 0;
+}
+
+static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa, map<int, vector<int> >& rules) {
     JSONQueryDFA* dfa = createJSONQueryDFA(cpd_dfa->getStateSum(), cpd_dfa->getInputSize());
     for (int i = 0; i < dfa->states_num; ++i) {
         for (int j = 0; j < dfa->inputs_num; ++j ) {
@@ -299,10 +311,18 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
         int stop_state = cpd_dfa->isStopState(i);
         dfa->stop_state[i] = stop_state;
         if (stop_state) {
-            if (ctx->output_states.find(stop_state) != ctx->output_states.end())
+            if (ctx->output_states.find(stop_state) != ctx->output_states.end()) {
+                int condition = find_condition(ctx, rules[i]);
                 // the path may end with a filter
-                dfa->accept_type[i] = ctx->states_mapping.count(stop_state-1) ? DFA_OUTPUT_PREDICATE : DFA_OUTPUT_CANDIDATE;
-            else {
+                if (ctx->states_mapping.count(stop_state-1))
+                    dfa->accept_type[i] = DFA_OUTPUT_PREDICATE;
+                // the path may end with a condition of its own filter
+                else if (condition) {
+                    dfa->accept_type[i] = DFA_OUTPUT_CONDITION;
+                    dfa->stop_state[i] = stop_state = condition;
+                }
+                else dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
+            } else {
                 dfa->accept_type[i] = DFA_CONDITION;
                 for (int j = 0; j < cpd_dfa->getStateSum(); ++j) {
                     if (cpd_dfa->nextState(j, 2) == i) {
@@ -329,9 +349,9 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
     return dfa;
 }
 
-static int acc_id2state(DFACompressed* cpd_dfa, int acc) {
-    for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
-        if (acc == cpd_dfa->isStopState(i)) {
+static int acc_id2state(JSONQueryDFA* m_dfa, int acc) {
+    for (int i = 0; i < getDFAStatesNumber(m_dfa); ++i) {
+        if (acc == getDFAStopState(m_dfa, i)) {
             return i;
         }
     }
@@ -344,7 +364,9 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
     context->array_predicate_states.value_size = 0;
     context->array_predicate_states.value = (int*)calloc(cpd_dfa->getStateSum(), sizeof(int));
+    context->output_condition = (int*)calloc(cpd_dfa->getStateSum()+1, sizeof(int));
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
+        context->output_condition[i] = m_dfa->accept_type[i] == DFA_OUTPUT_CONDITION;
         int acc = getDFAStopState(m_dfa, i);
         if (acc) {
             context->subtrees[i] = ctx->tree_mapping[acc-1];
@@ -353,7 +375,7 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
+                    context->states_mapping[i].value[j] = acc_id2state(m_dfa, vec[j]+1);
                 }
             }
             if (isDFAPredicateType(m_dfa->accept_type[i])) {
@@ -392,7 +414,7 @@ JSONQueryDFA* buildJSONQueryDFAFromAST(ASTNode* json_path, JSONQueryDFAContext*
     DFACompressed* dfa = (DFACompressed*)(data->main_dfa);
     // dfa->print();
 
-    JSONQueryDFA* m_dfa = create_dfa(ctx, dfa);
+    JSONQueryDFA* m_dfa = create_dfa(ctx, dfa, mixer->accepted);
     create_context(ctx, dfa, m_dfa, context);
     printDFA(m_dfa);
 
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index e4f4896..564702d 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -225,7 +225,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                         {
                             
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE)
+                            if(isDFAOutputValueType(matched_type))
                             {  
                                 int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
                                 int right_len = us.index;
@@ -330,7 +330,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     else
                     {
                         int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
+                        if(isDFAOutputValueType(matched_type)) qs.node[qs_elt.start].count++;
                     }
                 }    
                 // add corresponding tuple into the tuple list 
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 21abec5..b99e412 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -90,12 +90,20 @@ Output* generateFinalOutput(PredicateFilter* pf)
                 if(strcmp(pc[index].name, node->string)==0) break;
                 index++;
             }
+            bool is_condition = (node!=NULL&&pc[index].name!=NULL);
+            bool is_output = !is_condition;
+            //the condition is an output as well, the content of an object or array is no condition value
+            if(is_condition&&isContextOutputCondition(pf->ctx, state))
+            {
+                is_condition = (text[0]!='{'&&text[0]!='[');
+                is_output = (text[0]!='\0');
+            }
             //update value for predicate condition
-            if(node!=NULL&&pc[index].name!=NULL)
+            if(is_condition)
             {  
                 pc[index].text = allocate_and_copy(text); 
             }
-            else //add candidate output into buffer
+            if(is_output) //add candidate output into buffer
             {
                 addOutputElement(buffer, text);
             }
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index 25026b2..108f720 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -176,7 +176,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     {
                         addTuple(tl, qs_elt->query_state, "{"); 
                     }
-                    else if(matched_type==DFA_CONDITION)
+                    else if(isDFAConditionType(matched_type))
                     {   
                         addTuple(tl, qs_elt->query_state, "");
                     }
@@ -219,11 +219,11 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
             case LB:   //left square branket 
                 {
                     int matched_type = getMatchedType(qa, qs_elt);                 
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    if(isDFAOutputValueType(matched_type))  
                     { 
                         qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1;  
                     }
-                    else if(matched_type==DFA_CONDITION)
+                    if(isDFAConditionType(matched_type))
                     {
                         addTuple(tl, qs_elt->query_state, "");
                     }
@@ -247,7 +247,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 {
                     QueryStackElement top_qs_elt = queryStackTop(qs);
                     //it is a matched output
-                    if(top_qs_elt.matched_start!=INVALID && getMatchedType(qa, &top_qs_elt)==DFA_OUTPUT_CANDIDATE)  
+                    if(top_qs_elt.matched_start!=INVALID && isDFAOutputValueType(getMatchedType(qa, &top_qs_elt)))  
                     { 
                         int position = lexer.next_start - lexer.begin_stream;
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
@@ -297,11 +297,11 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 if(syntaxStackSize(ss) >= 1)
                 {
                     int matched_type = getMatchedType(qa,qs_elt);
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    if(isDFAOutputValueType(matched_type))  
                     { 
                         addTuple(tl, qs_elt->query_state, token.content);  
                     }
-                    else if(matched_type==DFA_CONDITION)
+                    else if(isDFAConditionType(matched_type))
                     {
                         addTuple(tl, qs_elt->query_state, token.content);
                     }
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 645e12e..4d3b0d6 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -202,7 +202,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {   
                             addTupleInfo(&qs, start_index, c_node.query_state, "{", tl);
                         }
-                        else if(matched_type==DFA_CONDITION)
+                        else if(isDFAConditionType(matched_type))
                         {  
                             addTupleInfo(&qs, start_index, c_node.query_state, "", tl);
                         }
@@ -360,11 +360,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {   
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(isDFAOutputValueType(matched_type) ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
                             qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
                         }
-                        else if(matched_type==DFA_CONDITION)
+                        if(isDFAConditionType(matched_type))
                         {   
                             addTupleInfo(&qs, start_index, c_node.query_state, "", tl);
                         }
@@ -385,7 +385,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(isDFAOutputValueType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                             {   
                                 int matched_end = lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
@@ -520,7 +520,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                        if(isDFAOutputValueType(matched_type)||isDFAConditionType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                         {
                             addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                         }
@@ -567,7 +567,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {
                             TreeNode c_node = qs.node[start_index];
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(isDFAOutputValueType(matched_type)||isDFAConditionType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                             {
                                 addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                             }
-- 
2.43.0


From 9372c81e653ecc0d36fe86a3ed973082482810c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 11/45] fix: an incremental run keeps open matches and owns its
 automata

---
 JSONQuery/lexing.h                      |  8 +++++
 JSONQuery/parallel_automata_execution.h | 37 +++++++++++++---------
 JSONQuery/path_processor.h              | 20 ++++++------
 JSONQuery/streaming_automaton.c         | 41 ++++++++++++++++++++++++-
 JSONQuery/streaming_automaton.h         | 26 ++++++++--------
 JSONQuery/utility.c                     | 14 +++++++++
 JSONQuery/utility.h                     |  1 +
 JSONQuery/worker_automaton.h            |  3 +-
 8 files changed, 110 insertions(+), 40 deletions(-)

diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index 2644f27..92099be 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -39,6 +39,14 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->content = (char*)malloc((lexer->end_stream-json_stream+4)*sizeof(char));
 }
 
+//start from the given position of the stream
+static inline void skipStream(Lexer* lexer, int length)
+{
+    lexer->current_pointer += length;
+    lexer->current_start += length;
+    lexer->next_start += length;
+}
+
 static inline void destroyLexer(Lexer* lexer)
 {
     if(lexer->content!=NULL) free(lexer->content);
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 564702d..b1a5656 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -38,7 +38,6 @@ typedef struct ParallelAutomata{
     QueryStacks query_stacks; 
     TupleList* tuple_list;
     WorkerAutomaton* major_automaton;
-    int finish_flag;
 }ParallelAutomata;
 
 static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
@@ -50,21 +49,29 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
 {
-    if(pa->tuple_list != NULL&&pa->finish_flag==INPROGRESS)
-    {   
-        freeTupleList(pa->tuple_list); 
-        pa->tuple_list = NULL;
-    }
     if(pa->major_automaton != NULL)
-    {  
-        if(pa->finish_flag==INPROGRESS)
-        {
-            pa->major_automaton->tuple_list = createTupleList();
-        }
-        else if(pa->finish_flag==FINISH)
-        {   
-            destroyWorkerAutomaton(pa->major_automaton);  
-        }
+    {
+        //the major automaton owns the tuple list
+        destroyWorkerAutomaton(pa->major_automaton);
+        free(pa->major_automaton);
+    }
+    pa->tuple_list = NULL;
+    pa->major_automaton = NULL;
+}
+
+// drops the tuples of the previous input chunk
+static inline void renewParallelAutomata(ParallelAutomata* pa)
+{
+    WorkerAutomaton* wa = pa->major_automaton;
+    if(wa == NULL) return;
+    freeTupleList(wa->tuple_list);
+    wa->tuple_list = createTupleList();
+    pa->tuple_list = wa->tuple_list;
+    //no root refers to the dropped tuples
+    for(int i = 0; i<wa->query_stacks.num_node; i++)
+    {
+        wa->query_stacks.node[i].first_tuple_index = -1;
+        wa->query_stacks.node[i].last_tuple_index = -1;
     }
 }
 
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..5930531 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -180,15 +180,15 @@ typedef struct StreamingContext{
 
 static inline void initStreamingContext(StreamingContext* ci)
 {
+    //no automaton, no predicate filter yet
+    memset(ci, 0, sizeof(StreamingContext));
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingContext(StreamingContext* ci)
 {
-    ci->pa.finish_flag = FINISH;
     destroyParallelAutomata(&(ci->pa));
-    ci->sa.finish_flag = FINISH; 
     destroyStreamingAutomaton(&(ci->sa)); 
     destroyPredicateFilter(&(ci->pf));
 }
@@ -207,7 +207,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -217,7 +216,8 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
     ci->pf = pf;
 
     //free up dynamic memories
-    destroyStreamingAutomaton(&streaming_automaton);
+    renewStreamingAutomaton(&streaming_automaton);
+    ci->sa = streaming_automaton;
 
     //set context flag
     ci->context_flag = CONTEXT;
@@ -280,8 +280,6 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
     executeParallelAutomata(&pa, pInfo, NULL);
     TupleList* tl = pa.tuple_list;
 
-    ci->pa = pa;
-
     //predicate filtering
     PredicateFilter pf;
     if(cflag == CONTEXT) { pf = ci->pf; pf.tuple_list = tl;}
@@ -291,7 +289,8 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
    
     //free up dynamic memories
     freeInputChunks(pInfo);
-    destroyParallelAutomata(&pa);
+    renewParallelAutomata(&pa);
+    ci->pa = pa;
     ci->context_flag = CONTEXT;
     return output;
 }
@@ -332,8 +331,6 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     executeParallelAutomata(&pa, pInfo, ct);
     TupleList* tl = pa.tuple_list;
 
-    ci->pa = pa;
-
     //predicate filtering
     PredicateFilter pf;
     if(cflag == CONTEXT) { pf = ci->pf; pf.tuple_list = tl;}
@@ -342,8 +339,9 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     ci->pf = pf;
 
     //free up dynamic memories
-    freeInputChunks(pInfo);     
-    destroyParallelAutomata(&pa); 
+    freeInputChunks(pInfo);
+    renewParallelAutomata(&pa);
+    ci->pa = pa;
     ci->context_flag = CONTEXT;
     return output;
 }
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index 108f720..7888e22 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -128,6 +128,33 @@ static inline void val_pmt(QueryStackElement* qs_elt, SyntaxStack* ss, QueryStac
     syntaxStackPop(ss);
 }
 
+// position of the first object or array that is matched but not complete
+static int firstMatchedStart(QueryStackElement* qs_elt, QueryStack* qs)
+{
+    int first = qs_elt->matched_start;
+    for(int i = 0; i<=qs->top_item; i++)
+    {
+        int start = qs->item[i].matched_start;
+        if(start!=INVALID && (first==INVALID || start<first)) first = start;
+    }
+    return first;
+}
+
+// keeps the text that the next input chunk might complete
+static void savePendingText(StreamingAutomaton* sa, QueryStackElement* qs_elt, Lexer* lexer)
+{
+    QueryStack* qs = &sa->query_stack;
+    int first = firstMatchedStart(qs_elt, qs);
+    if(first==INVALID) return;
+    sa->pending_text = allocate_and_copy(lexer->begin_stream+first);
+    //positions are relative to the beginning of the pending text
+    if(qs_elt->matched_start!=INVALID) qs_elt->matched_start -= first;
+    for(int i = 0; i<=qs->top_item; i++)
+    {
+        if(qs->item[i].matched_start!=INVALID) qs->item[i].matched_start -= first;
+    }
+}
+
 // the execution of streaming automaton
 void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constraint_flag)
 {
@@ -143,7 +170,17 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
 
     //initialize lexer
     Lexer lexer;
-    initLexer(&lexer, json_stream);
+    char* pending_text = sa->pending_text;
+    sa->pending_text = NULL;
+    if(pending_text!=NULL)  //resume after the pending text
+    {
+        char* stream = concatenate(pending_text, json_stream);
+        initLexer(&lexer, stream);
+        skipStream(&lexer, strlen(pending_text));
+        free(pending_text);
+        json_stream = pending_text = stream;
+    }
+    else initLexer(&lexer, json_stream);
 
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
@@ -321,7 +358,9 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
+    savePendingText(sa, qs_elt, &lexer);
     destroyLexer(&lexer);
+    if(pending_text!=NULL) free(pending_text);
     sa->query_state = qs_elt->query_state;
     sa->count = qs_elt->count;
     sa->matched_start = qs_elt->matched_start;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..0909f5f 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -9,8 +9,6 @@
 
 #define OPEN 1
 #define CLOSE 0
-#define INPROGRESS 0
-#define FINISH 1
 
 typedef struct StreamingAutomaton{
     JSONQueryDFA* query_automaton;
@@ -27,7 +25,8 @@ typedef struct StreamingAutomaton{
     int constraint_flag;
     // saves data constraint table
     ConstraintTable* constraint_table;
-    int finish_flag;
+    // text of the objects and arrays that are matched but not complete yet
+    char* pending_text;
 }StreamingAutomaton;
 
 // sa -- streaming automaton qa -- query automaton
@@ -44,19 +43,22 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    sa->pending_text = NULL;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
 {
-    if(sa->tuple_list != NULL && sa->finish_flag == INPROGRESS)
-    {   
-        freeTupleList(sa->tuple_list); 
-        sa->tuple_list = NULL;
-    } 
-    if(sa->finish_flag == INPROGRESS)
-    {
-        sa->tuple_list = createTupleList();
-    }
+    if(sa->tuple_list != NULL) freeTupleList(sa->tuple_list);
+    if(sa->pending_text != NULL) free(sa->pending_text);
+    sa->tuple_list = NULL;
+    sa->pending_text = NULL;
+}
+
+// drops the tuples of the previous input chunk
+static inline void renewStreamingAutomaton(StreamingAutomaton* sa)
+{
+    freeTupleList(sa->tuple_list);
+    sa->tuple_list = createTupleList();
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2225c39..9b353d8 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -95,3 +95,17 @@ int left_null_count(char *s)
      while((*temp == ' ')&&temp){*temp++; count++;}
      return count;
 }
+
+/******************************************************************************
+Function: char* concatenate(char *first, char *second);
+Description: allocate new memory spaces and join two strings
+Return: the new string
+******************************************************************************/
+char* concatenate(char* first, char* second)
+{
+    size_t length = strlen(first);
+    char* text = (char*)malloc(length+strlen(second)+1);
+    strcpy(text, first);
+    strcpy(text+length, second);
+    return text;
+}
diff --git a/JSONQuery/utility.h b/JSONQuery/utility.h
index 6fdd724..5bf64f8 100644
--- a/JSONQuery/utility.h
+++ b/JSONQuery/utility.h
@@ -4,6 +4,7 @@
 void strcopy(char* src,char* dest);
 char* substring(char *pText, int begin, int end);
 char* allocate_and_copy(char* pText);
+char* concatenate(char* first, char* second);
 char* ltrim(char *s); //reduct blank from left
 int left_null_count(char *s);  //calculate the number of blanket for each string
 
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..1d2db8d 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -60,9 +60,10 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
 {
-    if(wa->id>0 && wa->tuple_list != NULL)
+    if(wa->tuple_list != NULL)
     {
         freeTupleList(wa->tuple_list);
+        wa->tuple_list = NULL;
     }   
 }
 
-- 
2.43.0


From cd59dd0e8aaf213c25209ab3c98476464fa1ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 12/45] fix: an array element never passes a filter of a fixed
 path

---
 DFABuilder/src/dfa_builder.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 7c9fabc..38015e0 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -88,6 +88,8 @@ struct StackContext {
     int state_handle_now;
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
+    // filters whose elements are found at one depth only
+    set<int> fixed_filters;
 
     StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), last_st_generated(false), last_id_generated(0), input_mapping(3), array_range(0), state_handle_now(0) {}
     ~StackContext() {}
@@ -124,6 +126,12 @@ struct StackContext {
         printf("\n");
     }
 
+    bool has_parent_step() {
+        for (auto& se: st)
+            if (se.stype == set_parent_all || se.stype == set_parent_property) return true;
+        return false;
+    }
+
     bool create_dfa(bool in_predicate = false) {
         string s = getOutput();
         if (check.find(s) == check.end()) check[s] = model->size()+1;
@@ -270,6 +278,7 @@ struct StackContext {
                     evaluatorModifyReference(p);
                     state_handle_now = model->size()-1;
                     states_mapping[state_handle_now] = vector<int>(0);
+                    if (!has_parent_step()) fixed_filters.insert(state_handle_now);
                     filter_trees.push_back(p->left);
                     tree_mapping[state_handle_now] = p->left;
                     construct_filter(p->left);
@@ -331,6 +340,9 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa, map<i
                     }
                 }
             }
+            // a filter selects objects: the path doesn't continue into an array
+            if (ctx->fixed_filters.count(stop_state-1))
+                dfa->table[i * dfa->inputs_num + 2] = 0;
             auto pair = ctx->array_range[stop_state-1];
             if (pair.first || pair.second) {
                 dfa->array_index[i] = {pair.first, pair.second};
-- 
2.43.0


From 06441bfedfbfb93bb9a503b5758ad619f192acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:10 +0000
Subject: [PATCH 13/45] fix: a condition that no state reports is not looked up

---
 DFABuilder/src/dfa_builder.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 38015e0..931d9e5 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -301,12 +301,13 @@ struct StackContext {
 
 extern "C" {
 
-// the first condition of a filter among the rules that are accepted, or 0
+// the last condition of a filter among the rules that are accepted, or 0
 static int find_condition(StackContext* ctx, const vector<int>& rules) {
+    int condition = 0;
     for (int rule : rules)
         if (ctx->tree_mapping[rule-1] && ctx->states_mapping.count(rule-1) == 0)
-            return rule;
-    return 0;
+            condition = rule;
+    return condition;
 }
 
 static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa, map<int, vector<int> >& rules) {
@@ -386,9 +387,13 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
+                int size = 0;
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(m_dfa, vec[j]+1);
+                    int state = acc_id2state(m_dfa, vec[j]+1);
+                    // another rule may hide the condition
+                    if (state != -1) context->states_mapping[i].value[size++] = state;
                 }
+                context->states_mapping[i].value_size = size;
             }
             if (isDFAPredicateType(m_dfa->accept_type[i])) {
                 int k = context->array_predicate_states.value_size++;
-- 
2.43.0


From def3f19af837b471ba121a89bd6617f370b60294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 14/45] fix: an empty index range selects nothing

---
 DFABuilder/src/dfa_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 931d9e5..01fc8fc 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -255,6 +255,8 @@ struct StackContext {
                     else end = INT_MAX;
                     push({set_array_index, begin, end});
                     create_dfa();
+                    // {0,0} stands for no range at all
+                    if (begin == 0 && end == 0) begin = end = 1;
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
-- 
2.43.0


From 62d4ececa74557ec40eec80bf12c5c6deb097508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 15/45] fix: chunks are cut outside of strings, hold any amount
 of text and are never missing

---
 JSONQuery/file_partition.c | 128 +++++++++++++++++--------------------
 JSONQuery/file_partition.h |   8 +++
 JSONQuery/path_processor.h |  88 ++++---------------------
 3 files changed, 78 insertions(+), 146 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..1ed8092 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -2,95 +2,81 @@
 
 #include <malloc.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include "utility.h"
 
-#define MAX_EXTENSION 1000
+long findBoundary(char* text, long begin, long from, long end)
+{
+    int in_string = 0;
+    char prev = 0;  //last character that is neither a blank nor inside of a string
+    for(long i = begin; i<end; i++)
+    {
+        char ch = text[i];
+        if(in_string)
+        {
+            if(ch=='\\') i++;  //escaped character
+            else if(ch=='"') in_string = 0;
+            continue;
+        }
+        if(ch=='"')
+        {
+            if(i>=from&&(prev==','||prev=='{'||prev=='[')) return i;
+            in_string = 1;
+        }
+        if(!(ch==' '||ch=='\t'||ch=='\n'||ch=='\r')) prev = ch;
+    }
+    return end;
+}
 
-PartitionInfo partitionFile(char* file_name, int num_core)
-{ 
+PartitionInfo splitStream(char* input_stream, int num_core)
+{
     PartitionInfo pInfo;
-    pInfo.num_chunk = 0;
-    char** stream=NULL;
-    FILE *fp; 
-    long file_size, chunk_size;
-    fp = fopen(file_name,"rb");
-    if (fp==NULL) { return pInfo;}
-    fseek (fp, 0, SEEK_END);
-    file_size = ftell(fp);
-    rewind(fp);     
-
-    chunk_size = (file_size/num_core)+1;
-    stream = (char**)malloc(num_core*sizeof(char*));
+    long stream_size = strlen(input_stream);
+    long chunk_size = (stream_size/num_core)+1;
+    char** stream = (char**)malloc(num_core*sizeof(char*));
     int i;
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char * buff=(char*)malloc((chunk_size)*sizeof(char)); 
-            fread (buff,1,chunk_size-1,fp); 
-            buff[chunk_size-1]='\0'; 
-            stream[i]=strcat(stream[i],buff); 
-        }
-        else fread (stream[i],1,chunk_size,fp);
-        int add = 0;
         //look for the next complete token
-        ch = fgetc(fp);
-        while(1)
-        {    
-            if(ch==EOF) break;
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-            ch = fgetc(fp);
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += (chunk_size+add);
-        if((sum_size+chunk_size)>=file_size) {i++; break;}
+        long next = findBoundary(input_stream, sum_size, sum_size+chunk_size, stream_size);
+        stream[i] = substring(input_stream, sum_size, next);
+        sum_size = next;
+        if((sum_size+chunk_size)>=stream_size) {i++; break;}
     }
     pInfo.num_chunk = i;
-    long remain_size = file_size-sum_size;
-    if(remain_size>0)
+    //the remaining text, there is at least one chunk
+    if(sum_size<stream_size||i==0)
     {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char* buff=(char*)malloc(remain_size*sizeof(char));
-            fread (buff,1,remain_size-1,fp);
-            buff[remain_size-1]='\0';
-            stream[i]=strcat(stream[i],buff);
-            stream[i][remain_size] = '\0'; 
-        }
-        else{
-            fread (stream[i],1,remain_size,fp);
-            stream[i][remain_size] = '\0';
-        }
+        stream[i] = substring(input_stream, sum_size, stream_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
+    return pInfo;
+}
+
+PartitionInfo partitionFile(char* file_name, int num_core)
+{ 
+    PartitionInfo pInfo;
+    pInfo.num_chunk = 0;
+    pInfo.stream = NULL;
+    long file_size;
+    FILE *fp; 
+    fp = fopen(file_name,"rb");
+    if (fp==NULL) { return pInfo;}
+    fseek (fp, 0, SEEK_END);
+    file_size = ftell(fp);
+    rewind(fp);     
+
+    char* text = (char*)malloc((file_size+1)*sizeof(char));
+    file_size = fread(text,1,file_size,fp);
+    text[file_size] = '\0';
+    fclose(fp);
+    pInfo = splitStream(text, num_core);
+    free(text);
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
 }
diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..285e310 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -2,6 +2,7 @@
 #define __FILE_PARTITION_H__
 
 #include <stdio.h>
+#include <stdlib.h>
 
 typedef struct PartitionInfo
 {
@@ -9,6 +10,12 @@ typedef struct PartitionInfo
     int num_chunk;
 }PartitionInfo;
 
+//position of the first string at or after "from" that follows ',', '{' or '[' ("end" if there is none); "begin" is not inside of a string
+long findBoundary(char* text, long begin, long from, long end);
+
+//split text into several chunks, each of them but the first one starts with a string
+PartitionInfo splitStream(char* input_stream, int num_core);
+
 //partitioned intput stream into several chunks
 PartitionInfo partitionFile(char* file_name, int num_core);
 
@@ -21,6 +28,7 @@ static inline void freeInputChunks(PartitionInfo pInfo)
     {
         if(stream[i]!=NULL) free(stream[i]);
     }
+    free(stream);
 }
 
 static inline void printChunk(char** stream, int num_core)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 5930531..dd11732 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -53,33 +53,23 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
+    if(size<=0) { fclose(fp); return NULL;}
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
+    int capacity = size+MAX_EXTENSION;
+    char* stream =(char*)malloc((capacity+1)*sizeof(char));
     fread(stream,1,size,fp);
     int add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
     while(1)
-    {    
-        if(ch==EOF) break;
-        if(ch=='"')
-        {
-            char prev = stream[size+add-1];
-            int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-            {
-                prev = stream[size+add-t]; 
-                t++;
-            }
-            if(prev==','||prev=='{'||prev=='[')
-            {
-                break;
-            }
-        }
-        stream[size+add] = ch; 
-        add = add+1;
-        ch = fgetc(fp);
+    {
+        int count = fread(stream+size+add,1,capacity-size-add,fp);
+        int next = findBoundary(stream, 0, size, size+add+count);
+        add = next-size;
+        //stop at the boundary, or at the end of the file
+        if(next<capacity) break;
+        //there is no boundary yet
+        capacity *= 2;
+        stream = (char*)realloc(stream, (capacity+1)*sizeof(char));
     }
     stream[size+add]='\0';
     int next = loaded_size+size+add;
@@ -91,59 +81,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
 //split input stream into several chunks
 PartitionInfo partitionInputStream(char* input_stream, int num_core)
 {
-    PartitionInfo pInfo;
-    pInfo.num_chunk = 0;
-    char** stream = NULL;
-    long stream_size, chunk_size;
-    stream_size = strlen(input_stream);
-    chunk_size = (stream_size/num_core)+1;
-    stream = (char**)malloc(num_core*sizeof(char*));
-    int i;
-    for(i = 0; i<num_core; i++)
-        stream[i] = NULL;
-    long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
-    {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
-        substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
-        sum_size += chunk_size; 
-        int add = 0;
-        //look for the next complete token
-        while(sum_size<=stream_size)
-        {    
-            ch = input_stream[sum_size+add];
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    stream[i][chunk_size+add] = ch;
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += add;
-        if((sum_size+chunk_size)>=stream_size) {i++; break;}
-    } 
-    pInfo.num_chunk = i;
-    long remain_size = stream_size-sum_size;
-    if(remain_size>0)
-    {
-        stream[i] = substring(input_stream, sum_size, stream_size);
-        pInfo.num_chunk = i+1;
-    }
-    pInfo.num_chunk = i+1;
-    pInfo.stream = stream;
+    PartitionInfo pInfo = splitStream(input_stream, num_core);
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
 }
-- 
2.43.0


From 1e291241dd83546809dd74c23d73cf0ce64f0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 16/45] fix: units of a chunk keep their bounds, and looking
 ahead keeps the token

---
 JSONQuery/unit.h             |  1 +
 JSONQuery/worker_automaton.c | 27 +++++++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..cf7669c 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = UNIT_UNMATCHED;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 4d3b0d6..6b88478 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -47,8 +47,13 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //the content of the current token is still needed, so look ahead with separate room for the content
+    char* content = lexer->content;
+    lexer->content = (char*)malloc((lexer->end_stream-lexer->next_start+4)*sizeof(char));
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
+    free(lexer->content);
+    lexer->content = content;
     if(input_token_type==RCB)
     {
         if(syntaxStackSize(ss)==1)
@@ -161,6 +166,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    //the current token begins at or after this position, nothing but blanks is in between
+    char* token_begin = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -185,7 +192,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     if(unit.unit_state!=UNIT_MATCHED)
                     {
                         unit.unit_state = UNIT_MATCHED;
-                        addStartPosition(&unit, lexer.current_start-1);
+                        addStartPosition(&unit, token_begin);
                     }
                     obj_s(&ss);  
                     //write an iterator to get all nodes for current states from qs_elt
@@ -242,7 +249,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {
                             //create a new unit
                             addRoots(&unit, qs.node, qs.num_node); 
-                            addEndPosition(&unit, lexer.current_start-1); 
+                            addEndPosition(&unit, token_begin); 
                             addUnit(ul, unit);
                             initUnit(&unit);
                             //automata resetting
@@ -270,7 +277,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {
                                 //create a new unit
                                 addRoots(&unit, qs.node, qs.num_node); 
-                                addEndPosition(&unit, lexer.current_start-1);
+                                addEndPosition(&unit, token_begin);
                                 addUnit(ul, unit);
                                 initUnit(&unit);
                                 //automata resetting
@@ -340,7 +347,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     if(unit.unit_state!=UNIT_MATCHED)
                     {
                         unit.unit_state = UNIT_MATCHED;
-                        addStartPosition(&unit, lexer.current_start-1);
+                        addStartPosition(&unit, token_begin);
                     }
                     //prune infeasible paths during runtime
                     if(wa->id>0&&constraint_flag==OPEN && unit.has_pruned == UNPRUNED)
@@ -419,7 +426,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {
                                 //create a new unit
                                 addRoots(&unit, qs.node, qs.num_node);
-                                addEndPosition(&unit, lexer.current_start-1);
+                                addEndPosition(&unit, token_begin);
                                 addUnit(ul, unit);
                                 initUnit(&unit);
                                 //automata resetting
@@ -476,7 +483,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         //create a new unit
                         addRoots(&unit, qs.node, qs.num_node); 
-                        addEndPosition(&unit, lexer.current_start-1);
+                        addEndPosition(&unit, token_begin);
                         addUnit(ul, unit);
                         initUnit(&unit);
                         //automata resetting
@@ -495,7 +502,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 if(unit.unit_state!=UNIT_MATCHED)
                 {
                     unit.unit_state = UNIT_MATCHED;
-                    addStartPosition(&unit, lexer.current_start-1);
+                    addStartPosition(&unit, token_begin);
                 }
                 //prune infeasible paths during runtime
                 if(wa->id>0 && constraint_flag==OPEN && unit.has_pruned==UNPRUNED && qs.top_item == -1)
@@ -546,7 +553,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                          {
                              //create a new unit
                              addRoots(&unit, qs.node, qs.num_node); 
-                             addEndPosition(&unit, lexer.current_start-1);
+                             addEndPosition(&unit, token_begin);
                              addUnit(ul, unit);
                              initUnit(&unit);
                              //automata resetting
@@ -561,7 +568,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_begin);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -578,6 +588,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_begin = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From e526a456e78f21fe70d9daefcfe6b0ed1a4ad7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 17/45] fix: matches that span several chunks keep their text

---
 JSONQuery/multi_stack.h                 | 15 +++++++-
 JSONQuery/parallel_automata_execution.h | 49 ++++++++++++++++---------
 JSONQuery/worker_automaton.c            |  8 ++--
 JSONQuery/worker_automaton.h            |  3 ++
 4 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..20e7753 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -398,7 +398,8 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 }
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt)
+// src_offset -- position in the whole input of the text that src_qs refers to
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, int src_offset)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -422,6 +423,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //the element that starts at the root level is not complete yet
+            if(src_qs->node[root_index].matched_start!=INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_offset + src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -441,6 +445,15 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
                             dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            if(dst_qs->node[node_index].matched_start!=INVALID)
+                                dst_qs->node[node_index].matched_start += src_offset;
+                            //the path has one parent and one root
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = dst_qs_elt->start;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
+                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = 0;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index b1a5656..1bd1412 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -133,6 +133,23 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+// text between two positions of the whole input, offset -- position of the first character of each chunk
+static inline char* textBetween(ThreadInfo* thread_info, int* offset, int num_thread, int begin, int end)
+{
+    char* text = (char*)malloc((end-begin+1)*sizeof(char));
+    int length = 0;
+    for(int i = 0; i<num_thread; i++)
+    {
+        int first = begin>offset[i]?begin:offset[i];
+        int last = end<offset[i+1]?end:offset[i+1];
+        if(first>=last) continue;
+        memcpy(text+length, thread_info[i].input_stream+(first-offset[i]), last-first);
+        length += last-first;
+    }
+    text[length] = '\0';
+    return text;
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -150,6 +167,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     //save information for current unmatched symbol
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
+    int offset[MAX_THREAD+1];
+    offset[0] = 0;
+    for(i = 0; i<num_thread; i++)
+        offset[i+1] = offset[i]+strlen(thread_info[i].input_stream);
 
     for(int i = 1; i<num_thread; i++)
     {
@@ -183,13 +204,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(isDFAOutputType(matched_type))
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = textBetween(thread_info, offset, num_thread, c_node.matched_start, offset[i]+us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -234,14 +251,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(isDFAOutputValueType(matched_type))
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
-                                qs.node[node_index].matched_start = INVALID;
+                                char* object_text = textBetween(thread_info, offset, num_thread, c_node.matched_start, offset[i]+us.index+1);
+                                addTupleInfo(&qs, top_qs_elt.start, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
+                                qs.node[top_qs_elt.start].matched_start = INVALID;
                                 sum++;
                             }
                         }
@@ -289,19 +302,21 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
             if((l==unit.num_root) && (unit.num_root>0) && (unit.unit_state!=UNIT_UNMATCHED))
             { 
                 //reprocess the current unit
-                int length = unit.end-unit.start+1;
+                int length = unit.end-unit.start;
                 int start_index = unit.start-thread_info[i].input_stream;
                 char* streaming = NULL;
-                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length-1);
+                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length);
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
                     seq_wa->query_stacks = qs;
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
+                    seq_wa->stream_offset = offset[i]+start_index;
                     printf("start reprocessing the %dth unit in the %dth chunk\n", j, i);
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
+                    seq_wa->stream_offset = 0;
                     free(streaming);
                     ss = seq_wa->syntax_stack;
                     qs = seq_wa->query_stacks;
@@ -356,7 +371,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, offset[i]);  //merge query stacks
         }
     }
     seq_wa->syntax_stack = ss;
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 6b88478..da67ffa 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -203,7 +203,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node); 
                         if(isDFAOutputType(matched_type) ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
                         if(isDFAPredicateType(matched_type))
                         {   
@@ -233,7 +233,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {  
                                     int matched_end = lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
-                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start - wa->stream_offset, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
@@ -369,7 +369,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node);
                         if(isDFAOutputValueType(matched_type) ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
                         if(isDFAConditionType(matched_type))
                         {   
@@ -396,7 +396,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {   
                                 int matched_end = lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
-                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start - wa->stream_offset, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 1d2db8d..2fe5233 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -45,6 +45,8 @@ typedef struct WorkerAutomaton{
     // whether the input stream needs to be reprocessed
     int need_reprocess;
     int initial_flag;
+    // position of the first character of the stream in the whole input
+    int stream_offset;
 }WorkerAutomaton;
 
 // wa -- worker automaton qa -- query automaton
@@ -56,6 +58,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     wa->tuple_list = createTupleList();
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
+    wa->stream_offset = 0;
 }
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
-- 
2.43.0


From d39056ee293582b9ffa34440d3cbb43d1602fe28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:25 +0000
Subject: [PATCH 18/45] fix: index ranges of elements in later chunks count
 from the start of the array

---
 JSONQuery/multi_stack.h                 | 22 +++++++++--
 JSONQuery/parallel_automata_execution.h | 37 +++++++-----------
 JSONQuery/tuple_list.h                  |  9 +++++
 JSONQuery/worker_automaton.c            | 51 ++++++-------------------
 4 files changed, 53 insertions(+), 66 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 20e7753..4464bfe 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -125,10 +125,10 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
         int lower = pair.lower;
         int upper = pair.upper;
         int counter = qs->node[i].count;
+        //index of the first element at the root level is unknown, combiner checks array indexes
         if(qs->node[i].root_range.end==-1)
         {
-            if(!((lower==0&&upper==0)||(counter<upper))) next_state = 0;
-            else next_state = dfaNextStateByStr(qa, cur_state, key_string); 
+            next_state = dfaNextStateByStr(qa, cur_state, key_string); 
         }
         else{
             if(!((lower==0&&upper==0)||(counter>=lower && counter<upper))) next_state = 0; 
@@ -324,11 +324,13 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          addTuple(tl, query_state, text_content);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -342,11 +344,13 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          addTuple(tl, query_state, text_content);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -368,11 +372,13 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          addVirtualTuple(tl, query_state, matched_start, matched_end);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -386,11 +392,13 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          addVirtualTuple(tl, query_state, matched_start, matched_end);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              linkTuples(tl, root.last_tuple_index, tuple_index);
              qs->node[root_index].last_tuple_index = tuple_index;
          }
          else{
              int tuple_index = getTupleListSize(tl)-1;
+             setElementIndex(tl, tuple_index, root.count);
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
@@ -399,7 +407,8 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
 // src_offset -- position in the whole input of the text that src_qs refers to
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, int src_offset)
+// selected -- whether array indexes select the current element at the root level
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, int src_offset, int selected)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -424,7 +433,7 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         if(root_index!=-1)
         { 
             //the element that starts at the root level is not complete yet
-            if(src_qs->node[root_index].matched_start!=INVALID)
+            if(selected && src_qs->node[root_index].matched_start!=INVALID)
                 dst_qs->node[dst_qs_elt->start].matched_start = src_offset + src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
@@ -445,6 +454,11 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
                             dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            if(!selected)
+                            {
+                                dst_qs->node[node_index].query_state = 0;
+                                dst_qs->node[node_index].matched_start = INVALID;
+                            }
                             if(dst_qs->node[node_index].matched_start!=INVALID)
                                 dst_qs->node[node_index].matched_start += src_offset;
                             //the path has one parent and one root
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 1bd1412..397b7ec 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -133,6 +133,13 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+// whether array indexes select the given element
+static inline int isElementSelected(JSONQueryDFA* qa, int query_state, int index)
+{
+    JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
+    return (pair.lower==0&&pair.upper==0)||(index>=pair.lower&&index<pair.upper);
+}
+
 // text between two positions of the whole input, offset -- position of the first character of each chunk
 static inline char* textBetween(ThreadInfo* thread_info, int* offset, int num_thread, int begin, int end)
 {
@@ -333,28 +340,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 tuple_index = tuple.next_index;
                 int query_state = qs.node[qs_elt.start].query_state;
                 if(query_state == 0) continue;
-                JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
-                int lower = pair.lower; 
-                int upper = pair.upper; 
-                int counter = qs.node[qs_elt.start].count; 
-                //check array indexes
-                if(!(lower==0&&upper==0))
-                {
-                    if(tuple.text!=NULL&&(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
-                    {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(isDFAOutputValueType(matched_type)) qs.node[qs_elt.start].count++;
-                    }
-                }    
+                //check array indexes, the element index of a tuple is relative to the beginning of the unit
+                if(!isElementSelected(qa, query_state, qs.node[qs_elt.start].count+tuple.element_index)) continue;
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
@@ -366,12 +353,16 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 }
                 sum++;
             }
+            //count the elements of the unit
+            if(l<unit.num_root) qs.node[qs_elt.start].count += unit.root_node[l].count;
         }
         //merge stack  
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, offset[i]);  //merge query stacks
+            TreeNode* c_node = &qs.node[qs_elt.start];
+            int selected = isElementSelected(qa, c_node->query_state, c_node->count);
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, offset[i], selected);  //merge query stacks
         }
     }
     seq_wa->syntax_stack = ss;
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 3e8906a..7d21927 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -15,6 +15,8 @@ typedef struct Tuple{
     //NULL for a virtual tuple
     char* text;
     int next_index;
+    //index of the element at the root level that contains the tuple (INVALID if the index doesn't matter)
+    int element_index;
 }Tuple;
 
 typedef struct TupleList{
@@ -67,6 +69,7 @@ static inline void addTuple(TupleList* tl, int state, char* text)
     tl->element[index].start_position = -1;
     tl->element[index].text = allocate_and_copy(text);
     tl->element[index].next_index  = -1;
+    tl->element[index].element_index = -1;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
@@ -77,6 +80,7 @@ static inline void addVirtualTuple(TupleList* tl, int state, int start_position,
     tl->element[index].end_position = end_position;
     tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
+    tl->element[index].element_index = -1;
 }
 
 static inline void linkTuples(TupleList* tl, int current_index, int next_index)
@@ -84,6 +88,11 @@ static inline void linkTuples(TupleList* tl, int current_index, int next_index)
     tl->element[current_index].next_index = next_index;
 }
 
+static inline void setElementIndex(TupleList* tl, int index, int element_index)
+{
+    tl->element[index].element_index = element_index;
+}
+
 static inline Tuple getTuple(TupleList* tl, int index)
 {
     return tl->element[index];
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index da67ffa..049a912 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -1,8 +1,5 @@
 #include "worker_automaton.h"
 
-#define DFA_INCOMPLETE_INDEX 4
-#define DFA_UNSELECTED_CANDIDATE 5
-
 /* 
    return matched type for current state
    0 -- not match DFA_OUTPUT_CANDIDATE -- output candidate 
@@ -19,28 +16,12 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
         int lower = pair.lower; 
         int upper = pair.upper;
         int counter = tnode->count;
-        //check array indexes
-        if(tnode->root_range.end==-1)  //root node
-        {   
-            if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-            //current state might be DFA_OUTPUT_CANDIDATE
-            else if(!(lower==0&&upper==0)) match = DFA_UNSELECTED_CANDIDATE; 
-        }
-        else if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))
+        //check array indexes (combiner checks them at the root level, where the index of the first element is unknown)
+        if(tnode->root_range.end!=-1 && !((lower==0&&upper==0)||(counter>=lower && counter<upper)))
         {
             match = 0;
         }
     }
-    else if(tnode->root_range.end==-1)
-    {
-        JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
-        int lower = pair.lower; 
-        int upper = pair.upper;
-        int counter = tnode->count;
-        if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-        //unknown information about array indexes
-        else if(!(lower==0&&upper==0)) match = DFA_INCOMPLETE_INDEX; 
-    }
     return match;
 }
 
@@ -201,7 +182,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(isDFAOutputType(matched_type) ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(isDFAOutputType(matched_type))  
                         { 
                             qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
@@ -229,7 +210,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(isDFAOutputType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                                if(isDFAOutputType(matched_type))
                                 {  
                                     int matched_end = lexer.next_start - lexer.begin_stream;
                                     if(wa->id==0){
@@ -297,17 +278,13 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             while(start_index<=end_index)
                             {
                                 TreeNode c_node = qs.node[start_index];
-                                //increase array counter
-                                qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node); 
                                 if(isDFAPredicateType(matched_type))
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-                                else if(matched_type==DFA_INCOMPLETE_INDEX)
-                                {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);  
-                                }
+                                //increase array counter
+                                qs.node[start_index].count++;
                                 start_index++;
                             }
                         }
@@ -329,13 +306,13 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             while(start_index<=end_index)
                             {
                                 TreeNode c_node = qs.node[start_index];
-                                //increase array counter
-				qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node);
                                 if(isDFAPredicateType(matched_type))
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
+                                //increase array counter
+				qs.node[start_index].count++;
                                 start_index++;
                             }
                         }
@@ -367,7 +344,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {   
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(isDFAOutputValueType(matched_type) ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(isDFAOutputValueType(matched_type))  
                         { 
                             qs.node[start_index].matched_start = wa->stream_offset + lexer.next_start - lexer.begin_stream - 1; 
                         }
@@ -392,7 +369,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(isDFAOutputValueType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(isDFAOutputValueType(matched_type))
                             {   
                                 int matched_end = lexer.next_start - lexer.begin_stream;
                                 if(wa->id==0){
@@ -402,10 +379,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
@@ -527,7 +500,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(isDFAOutputValueType(matched_type)||isDFAConditionType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                        if(isDFAOutputValueType(matched_type)||isDFAConditionType(matched_type))
                         {
                             addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                         }
@@ -577,7 +550,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {
                             TreeNode c_node = qs.node[start_index];
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(isDFAOutputValueType(matched_type)||isDFAConditionType(matched_type)||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(isDFAOutputValueType(matched_type)||isDFAConditionType(matched_type))
                             {
                                 addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
                             }
-- 
2.43.0


From d3356d66731ba831906f58141f2148154f8f6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 19/45] fix: a primitive that ends the stream is a token

---
 JSONQuery/lexing.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 150cc7a..af05797 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -202,6 +202,18 @@ Token nextToken(Lexer* lexer)
         }
         
     }
+    if(state==2) //the stream ends with a primitive
+    {
+        templen = end-token_pointer;
+        substring_in_place(lexer->content, token_pointer, 0, templen);
+        lexer->current_pointer = end;
+        lexer->current_start = end;
+        lexer->lex_state = 0;
+        lexer->next_start = end;
+        token.token_type = PRI;
+        token.content = lexer->content;
+        return token;
+    }
     token.token_type = END;
     return token;
 }
-- 
2.43.0


From 86f15beddb7d8217f029e9e4d96b7e9e1694f142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 20/45] fix: an incremental parallel run keeps the text of open
 matches

---
 JSONQuery/parallel_automata_execution.h | 26 +++++++++++++++++++++++++
 JSONQuery/worker_automaton.c            |  2 ++
 JSONQuery/worker_automaton.h            | 12 ++++++++++++
 3 files changed, 40 insertions(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 397b7ec..2968b85 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -368,6 +368,22 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     seq_wa->syntax_stack = ss;
     seq_wa->query_stacks = qs;
     seq_wa->query_stacks_element = qs_elt;
+    //keep the text that the next input chunk might complete
+    int first = INVALID;
+    for(i = 0; i<qs.num_node; i++)
+    {
+        int start = qs.node[i].matched_start;
+        if(start!=INVALID && (first==INVALID || start<first)) first = start;
+    }
+    if(first!=INVALID)
+    {
+        seq_wa->pending_text = textBetween(thread_info, offset, num_thread, first, offset[num_thread]);
+        //positions are relative to the beginning of the pending text
+        for(i = 0; i<qs.num_node; i++)
+        {
+            if(qs.node[i].matched_start!=INVALID) seq_wa->query_stacks.node[i].matched_start -= first;
+        }
+    }
     //printf("syntax stack size %d query stack size %d\n", syntaxStackSize(&ss), qs.top_item+1);
     //printf("size of 2-tuple list before filtering %d\n", getTupleListSize(tuple_list));
     return tuple_list;
@@ -380,6 +396,16 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
     int i;
+    WorkerAutomaton* wa = pa->major_automaton;
+    if(wa!=NULL && wa->pending_text!=NULL)  //resume after the pending text
+    {
+        char* stream = concatenate(wa->pending_text, par_info.stream[0]);
+        wa->stream_start = strlen(wa->pending_text);
+        free(wa->pending_text);
+        wa->pending_text = NULL;
+        free(par_info.stream[0]);
+        par_info.stream[0] = stream;
+    }
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 049a912..8e0a2f7 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -147,6 +147,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    skipStream(&lexer, wa->stream_start);
+    wa->stream_start = 0;
     //the current token begins at or after this position, nothing but blanks is in between
     char* token_begin = lexer.next_start;
     Token token = nextToken(&lexer);
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 2fe5233..f35a200 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -47,6 +47,10 @@ typedef struct WorkerAutomaton{
     int initial_flag;
     // position of the first character of the stream in the whole input
     int stream_offset;
+    // text of the objects and arrays that are matched but not complete yet
+    char* pending_text;
+    // position of the first character that has not been processed yet
+    int stream_start;
 }WorkerAutomaton;
 
 // wa -- worker automaton qa -- query automaton
@@ -59,6 +63,8 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
     wa->stream_offset = 0;
+    wa->pending_text = NULL;
+    wa->stream_start = 0;
 }
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
@@ -68,6 +74,11 @@ static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
         freeTupleList(wa->tuple_list);
         wa->tuple_list = NULL;
     }   
+    if(wa->pending_text != NULL)
+    {
+        free(wa->pending_text);
+        wa->pending_text = NULL;
+    }
 }
 
 static inline WorkerAutomaton* createWorkerAutomaton(JSONQueryDFA* qa, int thread_id, ConstraintTable* ct)
@@ -75,6 +86,7 @@ static inline WorkerAutomaton* createWorkerAutomaton(JSONQueryDFA* qa, int threa
     WorkerAutomaton* wa = (WorkerAutomaton*)malloc(sizeof(WorkerAutomaton));
     wa->id = thread_id;
     initWorkerAutomaton(wa, qa);
+    wa->constraint_table = NULL;
     if(ct==NULL) wa->constraint_flag = CLOSE;
     else
     {
-- 
2.43.0


From 54c781dac1d5a2977179b59f1111bbe5cb3c3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 21/45] fix: a constraint table holds keys of any length and
 number, and never mixes keys and arrays

---
 JSONQuery/constraint.h       | 33 ++++++++++++++++++++++++---------
 JSONQuery/worker_automaton.c |  2 +-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..df86509 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -3,27 +3,30 @@
 
 #include <stdlib.h>
 #include "lexing.h"
+#include "utility.h"
 
-#define MAX_KEY_TEXT 100
-#define MAX_CONSTRAINT 1000
+#define INIT_CONSTRAINT 1000 //initial capacity of a constraint table
 #define MAX_STATES 100
 #define INVALID -1
 
 typedef struct ConstraintInfo{
-    char token_name[MAX_KEY_TEXT];
+    char* token_name; //NULL for an array
     int type;
     int state_set[MAX_STATES];
     int num_state;
 }ConstraintInfo;
 
 typedef struct ConstraintTable{
-    ConstraintInfo constraint_info[MAX_CONSTRAINT];
+    ConstraintInfo* constraint_info;
     int num_constraint_info;
+    int capacity;
 }ConstraintTable;
 
 static inline void initConstraintTable(ConstraintTable* ct)
 {
+    ct->constraint_info = (ConstraintInfo*)malloc(INIT_CONSTRAINT*sizeof(ConstraintInfo));
     ct->num_constraint_info = 0;
+    ct->capacity = INIT_CONSTRAINT;
 }
 
 static inline ConstraintTable* createConstraintTable()
@@ -44,7 +47,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -90,7 +93,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
@@ -128,9 +131,14 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         }
     }
     else{
-        ++ct->num_constraint_info;
+        if(++ct->num_constraint_info>ct->capacity)
+        {
+            ct->capacity *= 2;
+            ct->constraint_info = (ConstraintInfo*)realloc(ct->constraint_info, ct->capacity*sizeof(ConstraintInfo));
+        }
         ct->constraint_info[index].type = type;
-        if(type==KY) strcopy(name, ct->constraint_info[index].token_name);
+        ct->constraint_info[index].token_name = NULL;
+        if(type==KY) ct->constraint_info[index].token_name = allocate_and_copy(name);
         ct->constraint_info[index].num_state = 0;
         int state_index = (ct->constraint_info[index].num_state++);
         ct->constraint_info[index].state_set[state_index] = state;
@@ -143,7 +151,7 @@ static void printConstraintTable(ConstraintTable* ct)
     int i = 0, j = 0;
     while(i<ct->num_constraint_info)
     {
-        printf("starting states for key %s or array %d; number of states %d\n", ct->constraint_info[i].token_name, ct->constraint_info[i].type, ct->constraint_info[i].num_state);
+        printf("starting states for key %s or array %d; number of states %d\n", ct->constraint_info[i].token_name!=NULL?ct->constraint_info[i].token_name:"", ct->constraint_info[i].type, ct->constraint_info[i].num_state);
         j = 0;
         while(j<ct->constraint_info[i].num_state)
         {
@@ -158,7 +166,14 @@ static void printConstraintTable(ConstraintTable* ct)
 static inline void freeConstraintTable(ConstraintTable* ct)
 {
     if(ct!=NULL)
+    {
+        for(int i = 0; i<ct->num_constraint_info; i++)
+        {
+            if(ct->constraint_info[i].token_name!=NULL) free(ct->constraint_info[i].token_name);
+        }
+        free(ct->constraint_info);
         free(ct);
+    }
 }
 
 
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 8e0a2f7..b6542b7 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -484,7 +484,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 {
                     ConstraintInfo ci;
                     ci.type = KY;
-                    strcopy(token.content, ci.token_name);
+                    ci.token_name = token.content;
                     updateStateInfo(ct, &ci);
                     if(ci.num_state>0)
                     {   
-- 
2.43.0


From 43d52cf35598f3fbd2cd32b576a2906b596d6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:09 +0000
Subject: [PATCH 22/45] fix: stacks, units, state sets and threads have no
 fixed limit

---
 JSONQuery/constraint.h                  |  27 ++--
 JSONQuery/multi_stack.h                 | 200 ++++++++++++++----------
 JSONQuery/parallel_automata_execution.h |   7 +-
 JSONQuery/predicate.c                   |   4 +-
 JSONQuery/predicate.h                   |  24 ++-
 JSONQuery/stack.h                       |  45 ++++--
 JSONQuery/streaming_automaton.h         |   2 +
 JSONQuery/unit.h                        |  54 ++++---
 JSONQuery/worker_automaton.c            |  42 +++--
 JSONQuery/worker_automaton.h            |   4 +
 10 files changed, 248 insertions(+), 161 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index df86509..7348c8d 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -6,14 +6,15 @@
 #include "utility.h"
 
 #define INIT_CONSTRAINT 1000 //initial capacity of a constraint table
-#define MAX_STATES 100
+#define INIT_STATES 16 //initial capacity of a state set
 #define INVALID -1
 
 typedef struct ConstraintInfo{
     char* token_name; //NULL for an array
     int type;
-    int state_set[MAX_STATES];
+    int* state_set;
     int num_state;
+    int capacity;
 }ConstraintInfo;
 
 typedef struct ConstraintTable{
@@ -50,12 +51,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
             if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
-                int j = 0;
-                while(j<ci->num_state)  //update state info
-                {
-                    ci->state_set[j] = ct->constraint_info[i].state_set[j]; 
-                    j++;
-                }                
+                ci->state_set = ct->constraint_info[i].state_set;  //update state info
                 break;
             }
             i++;
@@ -70,12 +66,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
             if(ct->constraint_info[i].type==3)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
-                int j = 0;
-                while(j<ci->num_state)  //update state info
-                {
-                    ci->state_set[j] = ct->constraint_info[i].state_set[j];
-                    j++;
-                }
+                ci->state_set = ct->constraint_info[i].state_set;  //update state info
                 break;
             }
             i++;
@@ -126,6 +117,11 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         } 
         if(state_index==state_last) //add state information
         {
+            if(state_last==ct->constraint_info[index].capacity)
+            {
+                ct->constraint_info[index].capacity *= 2;
+                ct->constraint_info[index].state_set = (int*)realloc(ct->constraint_info[index].state_set, ct->constraint_info[index].capacity*sizeof(int));
+            }
             int state_index = (ct->constraint_info[index].num_state++);
             ct->constraint_info[index].state_set[state_index] = state;
         }
@@ -140,6 +136,8 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         ct->constraint_info[index].token_name = NULL;
         if(type==KY) ct->constraint_info[index].token_name = allocate_and_copy(name);
         ct->constraint_info[index].num_state = 0;
+        ct->constraint_info[index].capacity = INIT_STATES;
+        ct->constraint_info[index].state_set = (int*)malloc(INIT_STATES*sizeof(int));
         int state_index = (ct->constraint_info[index].num_state++);
         ct->constraint_info[index].state_set[state_index] = state;
     } 
@@ -170,6 +168,7 @@ static inline void freeConstraintTable(ConstraintTable* ct)
         for(int i = 0; i<ct->num_constraint_info; i++)
         {
             if(ct->constraint_info[i].token_name!=NULL) free(ct->constraint_info[i].token_name);
+            free(ct->constraint_info[i].state_set);
         }
         free(ct->constraint_info);
         free(ct);
diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 4464bfe..bed73d9 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -2,11 +2,12 @@
 #define __MULTI_STACK_H__
 
 #include <stdlib.h>
+#include <string.h>
 #include "dfa_builder.h"
 #include "tuple_list.h"
 #include "stack.h"
 
-#define MAX_NODE 500 //max node in query stack tree
+#define INIT_NODE 500 //initial capacity of the query stack tree
 #define INVALID -1  //invalid state
 
 typedef struct Range{
@@ -37,17 +38,89 @@ typedef Range QueryStacksElement;
 typedef struct QueryStacks
 {
     //stack tree information
-    TreeNode node[MAX_NODE];
+    TreeNode* node;
     int num_node;
-    int parent_pointers[MAX_NODE];
+    int node_capacity;
+    int* parent_pointers;
     int num_parent_pointers;
-    int root_pointers[MAX_NODE];
+    int parent_capacity;
+    int* root_pointers;
     int num_root_pointers;
+    int root_capacity;
     //pointers for nodes that access all possible state information in different levels
-    QueryStacksElement item[MAX_STACK];
+    QueryStacksElement* item;
     int top_item;
+    int item_capacity;
 }QueryStacks;
 
+//query stacks without any memory yet
+static inline void clearQueryStacks(QueryStacks* qs)
+{
+    qs->node = NULL;
+    qs->parent_pointers = NULL;
+    qs->root_pointers = NULL;
+    qs->item = NULL;
+    qs->num_node = qs->num_parent_pointers = qs->num_root_pointers = 0;
+    qs->node_capacity = qs->parent_capacity = qs->root_capacity = qs->item_capacity = 0;
+    qs->top_item = -1;
+}
+
+static inline void destroyQueryStacks(QueryStacks* qs)
+{
+    free(qs->node);
+    free(qs->parent_pointers);
+    free(qs->root_pointers);
+    free(qs->item);
+    clearQueryStacks(qs);
+}
+
+//index of a new node
+static inline int addTreeNode(QueryStacks* qs)
+{
+    if(qs->num_node==qs->node_capacity)
+    {
+        qs->node_capacity = qs->node_capacity==0?INIT_NODE:2*qs->node_capacity;
+        qs->node = (TreeNode*)realloc(qs->node, qs->node_capacity*sizeof(TreeNode));
+    }
+    qs->node[qs->num_node].first_tuple_index = -1;
+    qs->node[qs->num_node].last_tuple_index = -1;
+    return qs->num_node++;
+}
+
+//returns the index of the pointer
+static inline int addParentPointer(QueryStacks* qs, int node_index)
+{
+    if(qs->num_parent_pointers==qs->parent_capacity)
+    {
+        qs->parent_capacity = qs->parent_capacity==0?INIT_NODE:2*qs->parent_capacity;
+        qs->parent_pointers = (int*)realloc(qs->parent_pointers, qs->parent_capacity*sizeof(int));
+    }
+    qs->parent_pointers[qs->num_parent_pointers] = node_index;
+    return qs->num_parent_pointers++;
+}
+
+//returns the index of the pointer
+static inline int addRootPointer(QueryStacks* qs, int node_index)
+{
+    if(qs->num_root_pointers==qs->root_capacity)
+    {
+        qs->root_capacity = qs->root_capacity==0?INIT_NODE:2*qs->root_capacity;
+        qs->root_pointers = (int*)realloc(qs->root_pointers, qs->root_capacity*sizeof(int));
+    }
+    qs->root_pointers[qs->num_root_pointers] = node_index;
+    return qs->num_root_pointers++;
+}
+
+static inline void addStacksItem(QueryStacks* qs, QueryStacksElement qs_elt)
+{
+    if(qs->top_item==qs->item_capacity-1)
+    {
+        qs->item_capacity = qs->item_capacity==0?INIT_STACK:2*qs->item_capacity;
+        qs->item = (QueryStacksElement*)realloc(qs->item, qs->item_capacity*sizeof(QueryStacksElement));
+    }
+    qs->item[++qs->top_item] = qs_elt;
+}
+
 static inline QueryStacksElement initQueryStacks(QueryStacks* qs, int* start_states, int num_start_states)
 {
     qs->top_item = -1;
@@ -57,7 +130,7 @@ static inline QueryStacksElement initQueryStacks(QueryStacks* qs, int* start_sta
     int i;
     for(i = 0; i<num_start_states; i++)
     {
-        int node_index = (qs->num_node++);
+        int node_index = addTreeNode(qs);
         qs->node[node_index].query_state = start_states[i];  //printf("start_states %d\n", start_states[i]);
         qs->node[node_index].count = 0;
         qs->node[node_index].matched_start = INVALID;
@@ -83,14 +156,18 @@ static inline QueryStacksElement pruneQueryPaths(QueryStacks* qs, int* start_sta
         qs_elt.end = qs->num_node - 1;
         return qs_elt;
     }
-    QueryStacks back_qs = *(qs);
+    //the first nodes represent all the states
+    int num_node = qs->num_node;
+    TreeNode* back_node = (TreeNode*)malloc(num_node*sizeof(TreeNode));
+    memcpy(back_node, qs->node, num_node*sizeof(TreeNode));
     qs->num_node = 0;
     int i;
     for(i = 0; i<num_start_states; i++)
     {
-        int node_index = (qs->num_node++);
-        qs->node[node_index] = back_qs.node[start_states[i]]; 
+        int node_index = addTreeNode(qs);
+        qs->node[node_index] = back_node[start_states[i]]; 
     }
+    free(back_node);
     QueryStacksElement qs_elt;
     qs_elt.start = 0;
     qs_elt.end = num_start_states - 1;
@@ -100,21 +177,14 @@ static inline QueryStacksElement pruneQueryPaths(QueryStacks* qs, int* start_sta
 static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksElement qs_elt, JSONQueryDFA* qa, char* key_string)
 {
     //push current states into stack
-    qs->item[++qs->top_item] = qs_elt;
+    addStacksItem(qs, qs_elt);
     //iterate through the current states, and move on to the next states
     QueryStacksElement next_qs_elt;
-    next_qs_elt.start = qs_elt.end + 1;
-    next_qs_elt.end = -1;
+    next_qs_elt.start = qs->num_node;
+    next_qs_elt.end = qs->num_node-1;
     int i, j, k;
-    /*
-      during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
-      so we need to record them temporarily, and update stack tree after iteration
-    */
-    int parent_pointer[MAX_NODE][MAX_NODE];
-    int num_parent_pointer[MAX_NODE];
-
-    int root_pointer[MAX_NODE][MAX_NODE];
-    int num_root_pointer[MAX_NODE];
+    //the next node for each current node
+    int* next_node = (int*)malloc((qs_elt.end-qs_elt.start+1)*sizeof(int));
 
     for(i = qs_elt.start; i<=qs_elt.end; i++)
     {
@@ -139,80 +209,46 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
         for(j = next_qs_elt.start; j<=next_qs_elt.end; j++)
         {
             //node exists
-            if(qs->node[j].query_state == next_state)
-            {
-                //add parent pointer
-                parent_pointer[next_state][num_parent_pointer[next_state]++] = i; 
-                //add root pointer from its parent
-                Range p_root_range = qs->node[i].root_range;
-                //parent node is the root node
-                if(p_root_range.end == -1)
-                {
-                    root_pointer[next_state][num_root_pointer[next_state]++] = i;
-                }
-                else //inherent the roots information from parent
-                {   
-                    for(k = p_root_range.start; k<=p_root_range.end; k++)
-                    {
-                        root_pointer[next_state][num_root_pointer[next_state]++] = qs->root_pointers[k];
-                    }
-                }
-                break;
-            }
+            if(qs->node[j].query_state == next_state) break;
         }
         //create new node
         if(j>next_qs_elt.end) 
         {
-            int node_index = (qs->num_node++);
+            int node_index = addTreeNode(qs);
             qs->node[node_index].query_state = next_state;
             qs->node[node_index].count = 0;
             qs->node[node_index].matched_start = INVALID;
-            qs->node[node_index].parent_range.start = 0; 
-            qs->node[node_index].parent_range.end = -1;
-            qs->node[node_index].root_range.start = 0; 
-            qs->node[node_index].root_range.end = -1;
             next_qs_elt.end = node_index;
-            num_parent_pointer[next_state] = 0;
-            num_root_pointer[next_state] = 0;
+        } 
+        next_node[i-qs_elt.start] = j;
+    }
+    //update parent and root pointers for each new node
+    for(j = next_qs_elt.start; j<=next_qs_elt.end; j++)
+    {
+        qs->node[j].parent_range.start = qs->num_parent_pointers;
+        qs->node[j].parent_range.end = qs->num_parent_pointers-1;
+        qs->node[j].root_range.start = qs->num_root_pointers;
+        qs->node[j].root_range.end = qs->num_root_pointers-1;
+        for(i = qs_elt.start; i<=qs_elt.end; i++)
+        {
+            if(next_node[i-qs_elt.start]!=j) continue;
             //add parent pointer
-            parent_pointer[next_state][num_parent_pointer[next_state]++] = i; 
+            qs->node[j].parent_range.end = addParentPointer(qs, i);
             //add root pointer from its parent
             Range p_root_range = qs->node[i].root_range;
             //parent node is the root node
             if(p_root_range.end == -1)
             {
-                root_pointer[next_state][num_root_pointer[next_state]++] = i;
+                qs->node[j].root_range.end = addRootPointer(qs, i);
             }
             else //inherent the roots information from parent
             {
                 for(k = p_root_range.start; k<=p_root_range.end; k++)
-                {
-                    root_pointer[next_state][num_root_pointer[next_state]++] = qs->root_pointers[k];
-                }
+                    qs->node[j].root_range.end = addRootPointer(qs, qs->root_pointers[k]);
             }
-        } 
-    }
-    //update parent and root pointers for each new node
-    for(i = next_qs_elt.start; i<=next_qs_elt.end; i++)
-    {
-        int query_state = qs->node[i].query_state;
-        qs->node[i].parent_range.start = qs->num_parent_pointers;
-        qs->node[i].parent_range.end = qs->num_parent_pointers-1;
-        for(j = 0; j<num_parent_pointer[query_state]; j++)
-        { 
-            int parent_index = (qs->num_parent_pointers++);
-            qs->parent_pointers[parent_index] = parent_pointer[query_state][j];  
-            qs->node[i].parent_range.end = parent_index;
-        }
-        qs->node[i].root_range.start = qs->num_root_pointers;
-        qs->node[i].root_range.end = qs->num_root_pointers-1;
-        for(j = 0; j<num_root_pointer[query_state]; j++)
-        { 
-            int root_index = (qs->num_root_pointers++); 
-            qs->root_pointers[root_index] = root_pointer[query_state][j];
-            qs->node[i].root_range.end = root_index;
         }
     }
+    free(next_node);
     return next_qs_elt;
 }
 
@@ -411,7 +447,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, int src_offset, int selected)
 {
     int i = 0;
-    src_qs->item[++src_qs->top_item] = (*src_qs_elt);
+    addStacksItem(src_qs, *src_qs_elt);
     int top_src = src_qs->top_item;
     int query_state = dst_qs->node[dst_qs_elt->start].query_state; 
     if(top_src>=0)  //merge src_qs into dst_qs
@@ -438,7 +474,7 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
-                dst_qs->item[++dst_qs->top_item] = (*dst_qs_elt);  
+                addStacksItem(dst_qs, *dst_qs_elt);
                 QueryStacksElement src_qs_elt = src_qs->item[i];
                 int start = src_qs_elt.start;
                 int end = src_qs_elt.end;
@@ -450,7 +486,7 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                     {
                         if(src_qs->root_pointers[root_start]==root_index)
                         {
-                            int node_index = (dst_qs->num_node++); 
+                            int node_index = addTreeNode(dst_qs);
                             dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
                             dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
@@ -462,12 +498,10 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             if(dst_qs->node[node_index].matched_start!=INVALID)
                                 dst_qs->node[node_index].matched_start += src_offset;
                             //the path has one parent and one root
-                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
-                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
-                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = dst_qs_elt->start;
-                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
-                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
-                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = 0;
+                            dst_qs->node[node_index].parent_range.start = addParentPointer(dst_qs, dst_qs_elt->start);
+                            dst_qs->node[node_index].parent_range.end = dst_qs->node[node_index].parent_range.start;
+                            dst_qs->node[node_index].root_range.start = addRootPointer(dst_qs, 0);
+                            dst_qs->node[node_index].root_range.end = dst_qs->node[node_index].root_range.start;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 2968b85..a7ae189 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -18,7 +18,6 @@
 #endif
 #include <pthread.h>
 
-#define MAX_THREAD 100
 #define INPROGRESS 0
 #define FINISH 1
 
@@ -174,7 +173,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     //save information for current unmatched symbol
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
-    int offset[MAX_THREAD+1];
+    int* offset = (int*)malloc((num_thread+1)*sizeof(int));
     offset[0] = 0;
     for(i = 0; i<num_thread; i++)
         offset[i+1] = offset[i]+strlen(thread_info[i].input_stream);
@@ -384,6 +383,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
             if(qs.node[i].matched_start!=INVALID) seq_wa->query_stacks.node[i].matched_start -= first;
         }
     }
+    free(offset);
     //printf("syntax stack size %d query stack size %d\n", syntaxStackSize(&ss), qs.top_item+1);
     //printf("size of 2-tuple list before filtering %d\n", getTupleListSize(tuple_list));
     return tuple_list;
@@ -394,7 +394,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
-    ThreadInfo ti[MAX_THREAD]; 
+    ThreadInfo* ti = (ThreadInfo*)malloc(num_cores*sizeof(ThreadInfo));
     int i;
     WorkerAutomaton* wa = pa->major_automaton;
     if(wa!=NULL && wa->pending_text!=NULL)  //resume after the pending text
@@ -434,6 +434,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     {
         freeWorkerAutomaton(ti[i].worker_automaton); 
     }
+    free(ti);
 }
 
 #endif // !__PARALLEL_AUTOMATA_EXECUTION_H__
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index b99e412..3a14a96 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -10,10 +10,10 @@ Output* generateFinalOutput(PredicateFilter* pf)
     int end_index = getTupleListSize(tl);
     //check whether current query has any predicates
     int s;
-    for(s = 0; s < MAX_PREDICATE_STATE; s++)
+    for(s = 0; s < pf->num_state; s++)
         if(pf->predicate_conditions[s]!=NULL) break;
     //there is no predicates, simply add each text into final output
-    if(s==MAX_PREDICATE_STATE)
+    if(s==pf->num_state)
     {
        for(int i = start_index; i < end_index; i++) 
        {
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index 52a4a47..5897e87 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -6,8 +6,7 @@
 #include "tuple_list.h"
 #include "output.h"
 
-#define MAX_PREDICATE_STATE 100
-#define MAX_STACK_ELEMENT 100
+#define INIT_STACK_ELEMENT 100 //initial capacity of a predicate stack
 #define FINISH 1
 #define INPROGRESS 0
 
@@ -18,7 +17,8 @@ typedef struct PredicateStackElement{
 }PredicateStackElement;
 
 typedef struct PredicateStack{
-    PredicateStackElement elements[MAX_STACK_ELEMENT];
+    PredicateStackElement* elements;
+    int capacity;
     int top_element;  
 }PredicateStack;
 
@@ -27,7 +27,8 @@ typedef struct PredicateFilter{
     //context information for dfa table
     JSONQueryDFAContext* ctx;
     //condition list for each predicate state
-    PredicateCondition* predicate_conditions[MAX_PREDICATE_STATE];
+    PredicateCondition** predicate_conditions;
+    int num_state;
     PredicateStack pstack;
     //save output buffer
     Output* buffer;
@@ -39,12 +40,19 @@ typedef struct PredicateFilter{
 
 static inline void initPredicateStack(PredicateStack* ps)
 {
+    ps->elements = NULL;
+    ps->capacity = 0;
     ps->top_element = -1;
 }
 
 static inline void pushPredicateStack(PredicateStack* ps, PredicateStackElement ps_elt)
 {
     int top_element = (++ps->top_element);
+    if(top_element==ps->capacity)
+    {
+        ps->capacity = top_element==0?INIT_STACK_ELEMENT:2*top_element;
+        ps->elements = (PredicateStackElement*)realloc(ps->elements, ps->capacity*sizeof(PredicateStackElement));
+    }
     ps->elements[top_element] = ps_elt;
 }
 
@@ -69,7 +77,9 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
     pf->ctx = ctx;
     int pred_size = getContextSizeOfPredicateStates(ctx);
     //initialize state mapping table
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
+    pf->num_state = ctx->states_num;
+    pf->predicate_conditions = (PredicateCondition**)malloc((pf->num_state+1)*sizeof(PredicateCondition*));
+    for(int i = 0; i<pf->num_state; i++)
         pf->predicate_conditions[i] = NULL;
     for(int i = 0; i < pred_size; i++)
     {
@@ -96,13 +106,15 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
 
 static inline void destroyPredicateFilter(PredicateFilter* pf)
 {
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
+    for(int i = 0; i<pf->num_state; i++)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
             free(pf->predicate_conditions[i]);
         }
     } 
+    free(pf->predicate_conditions);
+    free(pf->pstack.elements);
     if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
diff --git a/JSONQuery/stack.h b/JSONQuery/stack.h
index 4d8b0be..2ec17bd 100644
--- a/JSONQuery/stack.h
+++ b/JSONQuery/stack.h
@@ -3,7 +3,7 @@
 
 #include <stdlib.h>
 
-#define MAX_STACK 100  //max size of stack
+#define INIT_STACK 100  //initial capacity of a stack
 #define INVALID -1  //invalid state
 
 typedef struct QueryStackElement{
@@ -14,42 +14,69 @@ typedef struct QueryStackElement{
 
 typedef struct SyntaxStack
 {
-    int symbol[MAX_STACK];
+    int* symbol;
+    int capacity;
     int top_item;
 }SyntaxStack;
 
 typedef struct QueryStack
 {
-    QueryStackElement item[MAX_STACK];
+    QueryStackElement* item;
+    int capacity;
     int top_item;
 }QueryStack;
 
 static inline void initSyntaxStack(SyntaxStack* ss)
 {
+    ss->symbol = NULL;
+    ss->capacity = 0;
     ss->top_item = -1;
 }
 
+static inline void resetSyntaxStack(SyntaxStack* ss)
+{
+    ss->top_item = -1;
+}
+
+static inline void destroySyntaxStack(SyntaxStack* ss)
+{
+    free(ss->symbol);
+    initSyntaxStack(ss);
+}
+
 static inline void initQueryStack(QueryStack* qs)
 {
+    qs->item = NULL;
+    qs->capacity = 0;
     qs->top_item = -1;
 }
 
+static inline void destroyQueryStack(QueryStack* qs)
+{
+    free(qs->item);
+    initQueryStack(qs);
+}
+
 static inline void syntaxStackPush(SyntaxStack* ss, int data)
 {
-    if(ss->top_item<MAX_STACK-1)
+    if(ss->top_item==ss->capacity-1)
     {
-        ++ss->top_item;
-        ss->symbol[ss->top_item] = data;
+        ss->capacity = ss->capacity==0?INIT_STACK:2*ss->capacity;
+        ss->symbol = (int*)realloc(ss->symbol, ss->capacity*sizeof(int));
     }
+    ++ss->top_item;
+    ss->symbol[ss->top_item] = data;
 }
 
 static inline void queryStackPush(QueryStack* qs, QueryStackElement data)
 {
-    if(qs->top_item<MAX_STACK-1)
+    if(qs->top_item==qs->capacity-1)
     {
-        ++qs->top_item;
-        qs->item[qs->top_item] = data;
+        qs->capacity = qs->capacity==0?INIT_STACK:2*qs->capacity;
+        qs->item = (QueryStackElement*)realloc(qs->item, qs->capacity*sizeof(QueryStackElement));
     }
+    ++qs->top_item;
+    qs->item[qs->top_item] = data;
 }
 
 static inline int syntaxStackPop(SyntaxStack* ss)
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 0909f5f..1a71e4e 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -50,6 +50,8 @@ static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
 {
     if(sa->tuple_list != NULL) freeTupleList(sa->tuple_list);
     if(sa->pending_text != NULL) free(sa->pending_text);
+    destroySyntaxStack(&sa->syntax_stack);
+    destroyQueryStack(&sa->query_stack);
     sa->tuple_list = NULL;
     sa->pending_text = NULL;
 }
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index cf7669c..8e9349c 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -5,13 +5,12 @@
 #include "dfa_builder.h"
 #include "tuple_list.h"
 
-#define MAX_STATE 100  //maximum query states
-#define MAX_UNMATCHED_SYMBOL 100 //maximum unmatched symbols
+#define INIT_UNMATCHED_SYMBOL 16 //initial capacity for unmatched symbols
 #define UNIT_UNMATCHED 1 //unit starts with unmatched symbol
 #define UNIT_MATCHED 2   //finish handling unmatched symbol
 #define PRUNED 1
 #define UNPRUNED 0
-#define MAX_UNIT 100 //maximum number of units
+#define INIT_UNIT 16 //initial capacity of a unit list
 
 typedef struct UnmatchedSymbol{
     //type of unmatched symbol
@@ -22,14 +21,12 @@ typedef struct UnmatchedSymbol{
 
 typedef struct Unit
 {
-    //starting querying states
-    int starting_states[MAX_STATE]; 
-    int count_start_states;
     //record the token type of unmatched symbols
-    UnmatchedSymbol unmatched_symbols[MAX_UNMATCHED_SYMBOL];  
+    UnmatchedSymbol* unmatched_symbols;
     int count_unmatched_symbols;
+    int capacity_unmatched_symbols;
     //save root node information for current unit
-    TreeNode root_node[MAX_STATE];
+    TreeNode* root_node;
     //the number of roots
     int num_root;
     //the state of current unit
@@ -43,14 +40,17 @@ typedef struct Unit
 }Unit;
 
 typedef struct UnitList{
-    Unit units[MAX_UNIT];
+    Unit* units;
     int count_units;
+    int capacity;
 }UnitList;
 
 static inline void initUnit(Unit* unit)
 {
-    unit->count_start_states = -1;
+    unit->unmatched_symbols = NULL;
     unit->count_unmatched_symbols = -1;
+    unit->capacity_unmatched_symbols = 0;
+    unit->root_node = NULL;
     unit->num_root = -1;
     unit->unit_state = UNIT_UNMATCHED;
     unit->has_pruned = UNPRUNED;
@@ -60,12 +60,23 @@ static inline void initUnit(Unit* unit)
 
 static inline void freeUnit(Unit* unit)
 {
-
+    free(unit->unmatched_symbols);
+    free(unit->root_node);
 }
 
 static inline void initUnitList(UnitList* ul)
 {
+    ul->units = NULL;
     ul->count_units = -1;
+    ul->capacity = 0;
+}
+
+static inline void destroyUnitList(UnitList* ul)
+{
+    for(int i = 0; i<=ul->count_units; i++)
+        freeUnit(&ul->units[i]);
+    free(ul->units);
+    initUnitList(ul);
 }
 
 static inline int getSizeUnitList(UnitList* ul)
@@ -85,20 +96,15 @@ static inline void addEndPosition(Unit* unit, char* end)
     unit->end = end;
 }
 
-//add query state information into unit
-static inline void addStartingStates(Unit* unit, int* states, int num_states)
-{
-    for(int i = 0; i<num_states; i++)
-    {
-        unit->starting_states[i] = states[i];
-    }
-    unit->count_start_states = num_states-1;
-}
-
 //add unmatched ending symbol into unit
 static inline void addUnmatchedSymbol(Unit* unit, UnmatchedSymbol symbol)
 {
     int index = (++unit->count_unmatched_symbols);
+    if(index==unit->capacity_unmatched_symbols)
+    {
+        unit->capacity_unmatched_symbols = index==0?INIT_UNMATCHED_SYMBOL:2*index;
+        unit->unmatched_symbols = (UnmatchedSymbol*)realloc(unit->unmatched_symbols, unit->capacity_unmatched_symbols*sizeof(UnmatchedSymbol));
+    }
     unit->unmatched_symbols[index] = symbol;
     unit->unit_state = UNIT_UNMATCHED; 
 }
@@ -107,6 +113,7 @@ static inline void addUnmatchedSymbol(Unit* unit, UnmatchedSymbol symbol)
 static inline void addRoots(Unit* unit, TreeNode* root, int num_root)
 {   
     int i;
+    unit->root_node = (TreeNode*)realloc(unit->root_node, (num_root+1)*sizeof(TreeNode));
     for(i = 0; i<num_root; i++)
         unit->root_node[i] = root[i];
     unit->num_root = num_root;
@@ -116,6 +123,11 @@ static inline void addRoots(Unit* unit, TreeNode* root, int num_root)
 static inline void addUnit(UnitList* ul, Unit unit)
 {
     int index = (++ul->count_units);
+    if(index==ul->capacity)
+    {
+        ul->capacity = index==0?INIT_UNIT:2*index;
+        ul->units = (Unit*)realloc(ul->units, ul->capacity*sizeof(Unit));
+    }
     ul->units[index] = unit; 
 }
 
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index b6542b7..156eab9 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -110,7 +110,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     SyntaxStack shadow_ss;                    
     initSyntaxStack(&shadow_ss);
     QueryStacks qs; 
-    int query_state[MAX_STATE];
+    int* query_state = (int*)malloc((getDFAStatesNumber(qa)+1)*sizeof(int));
     QueryStacksElement qs_elt;
     int num_query_state;
     if(wa->need_reprocess==REPROCESS || (wa->id==0&&wa->initial_flag==INITIAL))
@@ -122,6 +122,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     else if(wa->id==0)
     {
         initSyntaxStack(&ss);
+        clearQueryStacks(&qs);
         query_state[0] = 1;
         num_query_state = 1;
         qs_elt = initQueryStacks(&qs, query_state, 1); 
@@ -130,6 +131,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     else
     {
         initSyntaxStack(&ss);
+        clearQueryStacks(&qs);
         num_query_state = getDFAStatesNumber(qa);
         int i; 
         for(i = 1; i<=num_query_state; i++)
@@ -156,7 +158,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
 
     //initialize unit list
     UnitList* ul = &wa->unit_list;
-    initUnitList(ul);
+    destroyUnitList(ul);
 
     //initialize unit
     Unit unit;
@@ -236,8 +238,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             addUnit(ul, unit);
                             initUnit(&unit);
                             //automata resetting
-                            initSyntaxStack(&ss);
-                            initSyntaxStack(&shadow_ss);
+                            resetSyntaxStack(&ss);
+                            resetSyntaxStack(&shadow_ss);
                             qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                         }
                         us.token_type = RCB;
@@ -264,8 +266,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 addUnit(ul, unit);
                                 initUnit(&unit);
                                 //automata resetting
-                                initSyntaxStack(&ss);
-                                initSyntaxStack(&shadow_ss);
+                                resetSyntaxStack(&ss);
+                                resetSyntaxStack(&shadow_ss);
                                 qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                             }
                             //simply pop stack for KEY during merging phase
@@ -405,8 +407,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 addUnit(ul, unit);
                                 initUnit(&unit);
                                 //automata resetting
-                                initSyntaxStack(&ss);
-                                initSyntaxStack(&shadow_ss);
+                                resetSyntaxStack(&ss);
+                                resetSyntaxStack(&shadow_ss);
                                 qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                             }
                             //simply pop stack for KEY during merging phase
@@ -462,8 +464,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         addUnit(ul, unit);
                         initUnit(&unit);
                         //automata resetting
-                        initSyntaxStack(&ss);
-                        initSyntaxStack(&shadow_ss);
+                        resetSyntaxStack(&ss);
+                        resetSyntaxStack(&shadow_ss);
                         qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                     }
                     us.token_type = RB;
@@ -532,8 +534,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                              addUnit(ul, unit);
                              initUnit(&unit);
                              //automata resetting
-                             initSyntaxStack(&ss);
-                             initSyntaxStack(&shadow_ss);
+                             resetSyntaxStack(&ss);
+                             resetSyntaxStack(&shadow_ss);
                              qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                          }
                          //check output and pop key during merge phase
@@ -569,22 +571,16 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     }
     if(qs.num_node>0)
     {
-        TreeNode roots[MAX_STATE];
-        int num_roots = 0;
-        QueryStacksElement top_qs_elt = qs.item[0];
-        if(qs.top_item==-1) top_qs_elt = qs_elt;
-        int i = top_qs_elt.start;
-        while(i<=top_qs_elt.end)
-        {
-            roots[num_roots++] = qs.node[i]; 
-            i++;
-        }
-        addRoots(&unit, roots, num_roots);
+        QueryStacksElement top_qs_elt = qs_elt;
+        if(qs.top_item!=-1) top_qs_elt = qs.item[0];
+        addRoots(&unit, qs.node+top_qs_elt.start, top_qs_elt.end-top_qs_elt.start+1);
     }
     else unit.num_root = 0;
     addEndPosition(&unit, lexer.end_stream);
     addUnit(ul, unit);
     destroyLexer(&lexer);
+    destroySyntaxStack(&shadow_ss);
+    free(query_state);
     //update syntax stack for worker automaton
     wa->syntax_stack = ss;
     //update query stack for worker automaton
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index f35a200..5581931 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -58,6 +58,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
 {
     wa->query_automaton = qa;
     initSyntaxStack(&wa->syntax_stack);
+    clearQueryStacks(&wa->query_stacks);
     initUnitList(&wa->unit_list);
     wa->tuple_list = createTupleList();
     wa->need_reprocess = NOREPROCESS;
@@ -74,6 +75,9 @@ static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
         freeTupleList(wa->tuple_list);
         wa->tuple_list = NULL;
     }   
+    destroySyntaxStack(&wa->syntax_stack);
+    destroyQueryStacks(&wa->query_stacks);
+    destroyUnitList(&wa->unit_list);
     if(wa->pending_text != NULL)
     {
         free(wa->pending_text);
-- 
2.43.0


From c24e3d6e0773ac3bb5ce3a29c858d3497a9e0e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:52 +0000
Subject: [PATCH 23/45] fix: matched texts and condition values are released

---
 JSONQuery/predicate.c           | 1 +
 JSONQuery/predicate.h           | 1 +
 JSONQuery/streaming_automaton.c | 2 ++
 JSONQuery/utility.c             | 1 -
 JSONQuery/worker_automaton.c    | 2 ++
 5 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 3a14a96..2fb0419 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -101,6 +101,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
             //update value for predicate condition
             if(is_condition)
             {  
+                if(pc[index].text!=NULL) free(pc[index].text); //the last value of a key is the one that counts
                 pc[index].text = allocate_and_copy(text); 
             }
             if(is_output) //add candidate output into buffer
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index 5897e87..18195d4 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -110,6 +110,7 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
+            clearPredicateCondtion(pf->predicate_conditions[i]);
             free(pf->predicate_conditions[i]);
         }
     } 
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index 7888e22..a9dc610 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -227,6 +227,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
                     addTuple(tl, qs_elt->query_state, output_text);
+                    free(output_text);
                 }
                 //syntax stack only has one '{'
                 if(syntaxStackSize(ss) == 1)   
@@ -290,6 +291,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
                         addTuple(tl, top_qs_elt.query_state, output_text);  
+                        free(output_text);
                     }
                     //syntax stack only has one '['
                     if(syntaxStackSize(ss) == 1)  
diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 9b353d8..74019ef 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -15,7 +15,6 @@ void strcopy(char* src,char* dest)
 	{
 		dest[i]=src[i];
 	}
-	dest[i]='\0';
 }
 
 /**************************************************************************
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 156eab9..151a68a 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -220,6 +220,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                     if(wa->id==0){
                                         char* output_text = substring(lexer.begin_stream, c_node.matched_start - wa->stream_offset, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                        free(output_text);
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
@@ -379,6 +380,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 if(wa->id==0){
                                     char* output_text = substring(lexer.begin_stream, c_node.matched_start - wa->stream_offset, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                    free(output_text);
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
-- 
2.43.0


From 4090424a56d9585a03bc41b0d28aa3f1b66ecc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:56 +0000
Subject: [PATCH 24/45] fix: a query may use more than 253 different names

---
 DFABuilder/include/Lexer/set_converter.hpp | 5 +++--
 DFABuilder/src/Lexer/set_converter.cpp     | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/DFABuilder/include/Lexer/set_converter.hpp b/DFABuilder/include/Lexer/set_converter.hpp
index d7aa673..0f51818 100644
--- a/DFABuilder/include/Lexer/set_converter.hpp
+++ b/DFABuilder/include/Lexer/set_converter.hpp
@@ -7,7 +7,7 @@
 namespace dragontooth {
 
 /**
- * @brief Simple Set Converter, without EquivalenceClass Converter, so the max charset support 256
+ * @brief Simple Set Converter, without EquivalenceClass Converter, the charset has 256 symbols, or as many as the model needs
  */ 
 class SetConverter : public Pass {
 public:
@@ -27,6 +27,7 @@ protected:
 
     void insert(regex_char k, bool negate, std::vector<bool>& cvs);
     void insert(regex_char p, regex_char q, bool negate, std::vector<bool>& cvs);
-    
+
+    regex_char charset_max = 256;
 };
 }  // namespace dragontooth
\ No newline at end of file
diff --git a/DFABuilder/src/Lexer/set_converter.cpp b/DFABuilder/src/Lexer/set_converter.cpp
index f3f18f1..6811e87 100644
--- a/DFABuilder/src/Lexer/set_converter.cpp
+++ b/DFABuilder/src/Lexer/set_converter.cpp
@@ -6,10 +6,10 @@
 namespace dragontooth {
 
 void SetConverter::Convert(RegexSet* itemset) {
-    std::vector<bool> cvs; cvs.resize(256);
+    std::vector<bool> cvs; cvs.resize(charset_max);
     CharSet cset(itemset->getData());
     if (cset.negate) {
-        for (regex_char i = 0; i < 256; ++i) cvs[i] = true;
+        for (regex_char i = 0; i < charset_max; ++i) cvs[i] = true;
     }
     auto charset = cset.charset;
     regex_char t;
@@ -24,7 +24,7 @@ void SetConverter::Convert(RegexSet* itemset) {
         }
     }
     std::set<regex_char> finalset;
-    for (regex_char i = 0; i < 256; ++i) {
+    for (regex_char i = 0; i < charset_max; ++i) {
         if (cvs[i]) finalset.insert(i);
     }
     itemset->setCharset(finalset);
@@ -32,6 +32,7 @@ void SetConverter::Convert(RegexSet* itemset) {
 
 IPassable* SetConverter::Execute(IPassable* data, IPassable* join_data) {
     RegexModel* model = dynamic_cast<RegexModel*>(data);
+    if (model->input_max > 256) charset_max = model->input_max;
     for (int i = 0; i < model->size(); ++i) {
         auto p = model->at(i);
         traverses_model(p->root);
-- 
2.43.0


From 6d92e55104307a7c7e6c051433c6242a2cad49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 25/45] fix: compiling a query releases its rules and their
 automata

---
 DFABuilder/include/Lexer/dfa.hpp         |  4 ++--
 DFABuilder/include/Lexer/model_core.hpp  | 14 ++++++++++++--
 DFABuilder/include/Lexer/regex_model.hpp |  8 ++++++--
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/DFABuilder/include/Lexer/dfa.hpp b/DFABuilder/include/Lexer/dfa.hpp
index 82edb64..8a9d537 100644
--- a/DFABuilder/include/Lexer/dfa.hpp
+++ b/DFABuilder/include/Lexer/dfa.hpp
@@ -13,6 +13,8 @@ namespace dragontooth {
  */
 class DFA {
 public:
+	virtual ~DFA() {}
+
 	/// @brief used to get the next state
 	virtual int nextState(int s, regex_char a) = 0;
 
@@ -41,8 +43,6 @@ public:
 protected:
 	DFA() : input_max(256) {}
 	DFA(int input_max) : input_max(input_max) {}
-	virtual ~DFA() {}
-
 	int input_max;
 	uint32_t state_num = 1;
 
diff --git a/DFABuilder/include/Lexer/model_core.hpp b/DFABuilder/include/Lexer/model_core.hpp
index d276019..853dd90 100644
--- a/DFABuilder/include/Lexer/model_core.hpp
+++ b/DFABuilder/include/Lexer/model_core.hpp
@@ -45,7 +45,17 @@ struct RegexModelItem {
 class RegexModel : public IPassable {
 public:
     RegexModel() : /* action_codes(1, 0), */ id_array(1), id_names(1) {}
-    ~RegexModel() {}
+    RegexModel(const RegexModel&) = delete;
+    RegexModel& operator=(const RegexModel&) = delete;
+    // a model owns its rules and all the DFAs
+    ~RegexModel() {
+        for (auto p : rules) {
+            delete p->root;
+            delete p->dfa;
+            delete p;
+        }
+        delete main_dfa;
+    }
     void Add(RegexItem* root) {
         auto p = new RegexModelItem{};
         p->rank = rules.size();
@@ -101,7 +111,7 @@ public:
     EquivalenceClass* ec = nullptr;
 
     // @brief the main DFA after combine all DFAs
-    DFA* main_dfa;
+    DFA* main_dfa = nullptr;
 
     friend std::ostream& operator<<(std::ostream& out, const RegexModel& that) {
         out << "RegexModel" << std::endl;
diff --git a/DFABuilder/include/Lexer/regex_model.hpp b/DFABuilder/include/Lexer/regex_model.hpp
index ecc60b1..56c4956 100644
--- a/DFABuilder/include/Lexer/regex_model.hpp
+++ b/DFABuilder/include/Lexer/regex_model.hpp
@@ -97,7 +97,10 @@ public:
     RegexList(const RegexList& other) : enableOr(other.enableOr), RegexItem(other) {
         for (auto p : other.items) items.push_back(p->deepCopy());
     }
-    virtual ~RegexList() {}
+    RegexList& operator=(const RegexList&) = delete;
+    virtual ~RegexList() {
+        for (auto p : items) delete p;
+    }
 
     void Add(RegexItem* item) { items.push_back(item); }
     virtual RegexItemType getItemType() const { return rt_list; }
@@ -261,7 +264,8 @@ protected:
 // name and reference of regex.
 class RegexRef : public RegexItem {
 public:
-    virtual ~RegexRef() {}
+    RegexRef& operator=(const RegexRef&) = delete;
+    virtual ~RegexRef() { delete ref; }
     virtual RegexItemType getItemType() const { return rt_ref; }
     RegexRef(const RegexRef& other) : name(other.name), RegexItem(other) {
         ref = other.ref->deepCopy();
-- 
2.43.0


From 5b1b794babe9af4891f7a17dae343215df98d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 26/45] fix: a path processor releases all of its query

---
 DFABuilder/include/dfa.h         |  1 +
 DFABuilder/include/dfa_builder.h | 11 +++++++++++
 DFABuilder/src/dfa_builder.cpp   |  5 ++++-
 JSONPathParser/jsonpath_model.h  | 15 +++++++++++++++
 JSONQuery/path_processor.h       |  6 ++++--
 5 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 58b1d32..e4ab450 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -69,6 +69,7 @@ static inline JSONQueryDFA* createJSONQueryDFA(uint32_t states_num, uint32_t inp
 static inline void destoryJSONQueryDFA(JSONQueryDFA* dfa) {
     if (dfa->table) free(dfa->table);
     if (dfa->stop_state) free(dfa->stop_state);
+    if (dfa->accept_type) free(dfa->accept_type);
     if (dfa->array_index) free(dfa->array_index);
     if (dfa->names) {
         for (int i = 0; i < dfa->inputs_num; ++i) 
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 78f28cc..b17426e 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -19,6 +19,7 @@ typedef struct JSONQueryDFAContext {
     JSONQueryIntVecPair* states_mapping;
     JSONQueryIntVecPair array_predicate_states;
     int* output_condition; // states_num : whether a condition is output as well
+    ASTNode* root; // the path that the subtrees belong to, NULL if the caller owns it
 } JSONQueryDFAContext;
 
 extern JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context);
@@ -29,6 +30,16 @@ extern JSONQueryDFA* buildJSONQueryDFAFromAST(ASTNode* json_path, JSONQueryDFACo
 
 // extern JSONQueryDFA* buildJSONQueryDFAMultipleFromAST(int num, ASTNode* json_path[]);
 
+static inline void destroyJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
+    for (int i = 0; i < ctx->states_num; ++i)
+        if (ctx->states_mapping[i].value) free(ctx->states_mapping[i].value);
+    free(ctx->states_mapping);
+    free(ctx->subtrees);
+    free(ctx->array_predicate_states.value);
+    free(ctx->output_condition);
+    ASTNodeFree(ctx->root);
+}
+
 static inline ASTNode* getContextSubtree(JSONQueryDFAContext* ctx, int stop_state) {
     return ctx->subtrees[stop_state];
 }
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 01fc8fc..7f734ba 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -375,6 +375,7 @@ static int acc_id2state(JSONQueryDFA* m_dfa, int acc) {
 
 static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryDFA* m_dfa, JSONQueryDFAContext* context) {
     context->states_num = cpd_dfa->getStateSum();
+    context->root = NULL;
     context->subtrees = (ASTNode**) calloc(cpd_dfa->getStateSum()+1, sizeof(ASTNode*));
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
     context->array_predicate_states.value_size = 0;
@@ -408,7 +409,9 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
 JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context) {
     printf("\noriginal: %s\n", json_path);
     ASTNode* root = analysisJSONPath(json_path);
-    return buildJSONQueryDFAFromAST(root, context);
+    JSONQueryDFA* dfa = buildJSONQueryDFAFromAST(root, context);
+    context->root = root;
+    return dfa;
 }
 
 JSONQueryDFA* buildJSONQueryDFAFromAST(ASTNode* json_path, JSONQueryDFAContext* context) {
diff --git a/JSONPathParser/jsonpath_model.h b/JSONPathParser/jsonpath_model.h
index 5202d2b..20c535f 100644
--- a/JSONPathParser/jsonpath_model.h
+++ b/JSONPathParser/jsonpath_model.h
@@ -167,6 +167,21 @@ static inline ASTNode* ASTNodeCreateFliter(ASTNode* left) {
 }
 
 
+// releases a node with all the nodes below and their texts
+static inline void ASTNodeFree(ASTNode* node) {
+    if (node == NULL) return;
+    ASTNodeFree(node->left);
+    ASTNodeFree(node->right);
+    switch (node->node_type) {
+        case jnt_string: case jnt_id: case jnt_function: case jnt_attribute: case jnt_variable:
+            free(node->string);
+            break;
+        default:
+            break;
+    }
+    free(node);
+}
+
 static inline void printIndentation(int n) {
     for (int i = 0; i < n; ++i) printf("  ");
 }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index dd11732..048d512 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -95,7 +95,7 @@ static inline PathProcessor* createPathProcessor(char* path)
 {
      JSONQueryDFAContext* ctx = (JSONQueryDFAContext*)malloc(sizeof(JSONQueryDFAContext)); 
      JSONQueryDFA* dfa = buildJSONQueryDFA(path, ctx);
-     if (dfa == NULL) return NULL;
+     if (dfa == NULL) { free(ctx); return NULL; }
      PathProcessor* path_processor = (PathProcessor*)malloc(sizeof(PathProcessor));
      path_processor->query_context = ctx;
      path_processor->query_automaton = dfa;
@@ -104,7 +104,9 @@ static inline PathProcessor* createPathProcessor(char* path)
 
 static inline void freePathProcessor(PathProcessor* path_processor)
 {
-     destoryJSONQueryDFA(path_processor->query_automaton); 
+     freeJSONQueryDFA(&path_processor->query_automaton); 
+     destroyJSONQueryDFAContext(path_processor->query_context);
+     free(path_processor->query_context);
      free(path_processor);
 }
 
-- 
2.43.0


From aa0b7f5a0f5e25a202bd56aca44b2c535945eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 27/45] hook: the size of a load can be chosen (JPSTREAM_VERIF)

---
 JSONQuery/path_processor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 048d512..11de151 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -20,7 +20,12 @@
 #define NOCONTEXT 0
 #define FINISH 1
 #define INPROGRESS 0
+#ifdef JPSTREAM_VERIF  //lets a monitor choose the size of a load
+extern int jpstream_memory_footprint;
+#define MEMORY_FOOTPRINT jpstream_memory_footprint
+#else
 #define MEMORY_FOOTPRINT 250000000
+#endif
 
 char* loadInputStream(char* file_name)
 {
-- 
2.43.0


From d9696f43fac9a636797f4f4d26cf12961bf94a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:56 +0000
Subject: [PATCH 28/45] fix: a chunk that gets no thread is processed by the
 caller

---
 JSONQuery/parallel_automata_execution.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index a7ae189..145bee4 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -25,6 +25,8 @@
 typedef struct ThreadInfo{
     pthread_t thread;
     int thread_id;
+    //whether the thread has to be joined
+    int started;
     char* input_stream;
     double execution_time;
     WorkerAutomaton* worker_automaton;
@@ -415,14 +417,18 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
+        ti[i].started = (rc==0);
     	if (rc)
         {
+            //no thread is available, process the chunk right here
             printf("ERROR; return code is %d\n", rc);
-            return 0;
+            main_thread(&ti[i]);
         }
     }
     for (i = 0; i <num_cores; i++)
-        pthread_join(ti[i].thread, NULL);
+    {
+        if (ti[i].started) pthread_join(ti[i].thread, NULL);
+    }
     printf("worker automata: finish parallel query processing\n");
     TupleList* tl = combine(ti, num_cores);
     printf("combiner: finish merging 2-tuple lists\n");
-- 
2.43.0


From 68b8bb3aae73f21e02b7dca12393aac0c7a0d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:13 +0000
Subject: [PATCH 29/45] fix: constraints from a file that cannot be loaded

---
 JSONQuery/path_processor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 11de151..70dab80 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -198,8 +198,8 @@ static inline ConstraintTable* collectDataConstraints(PathProcessor* path_proces
     StreamingAutomaton streaming_automaton;
     initStreamingAutomaton(&streaming_automaton, dfa);
 
-    //run streaming automaton
-    executeAutomaton(&streaming_automaton, input_stream, OPEN);
+    //run streaming automaton, there is nothing to learn from a file that cannot be loaded
+    if(input_stream != NULL) executeAutomaton(&streaming_automaton, input_stream, OPEN);
 
     //free up dynamic memories
     destroyStreamingAutomaton(&streaming_automaton);
-- 
2.43.0


From b49b7413e4678f44d1a1338ffacfbab9aed66e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 30/45] fix: a character that no query contains is a syntax
 error

---
 JSONPathParser/scanner_j.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/scanner_j.l b/JSONPathParser/scanner_j.l
index 6acfec3..f6b5851 100644
--- a/JSONPathParser/scanner_j.l
+++ b/JSONPathParser/scanner_j.l
@@ -88,7 +88,7 @@ Digits			[0-9]+
 
 {NCName}				SAVE_TOKEN; return NCNAME;
 
-.						printf("tokenizer error\n");
+.						return (unsigned char) yytext[0]; /* any other character is a syntax error */
 
 %%
 
-- 
2.43.0


From 212f2742023f6c0eeb451373ddc9cf24dd71db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 31/45] fix: remainder of numbers that no integer holds

---
 JSONPathParser/jsonpath_evaluator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 46a16ce..02d4684 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -166,6 +166,8 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
+            // only numbers that fit into an integer have a remainder
+            if (!(v1.number > -9.2e18 && v1.number < 9.2e18 && v2.number > -9.2e18 && v2.number < 9.2e18)) return v;
             if ((long long int)(v2.number) == 0) return v;
             v.vtype = jvt_number;
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
-- 
2.43.0


From 8a5de57bb7f8631e3fee81364490d53092602ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 32/45] fix: a match that is an array is complete at its end

---
 JSONQuery/streaming_automaton.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index a9dc610..9bef035 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -290,6 +290,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         int position = lexer.next_start - lexer.begin_stream;
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
+                        queryStackTopUpdate(qs, top_qs_elt);
                         addTuple(tl, top_qs_elt.query_state, output_text);  
                         free(output_text);
                     }
-- 
2.43.0


From 305b33d052679d3aa26eb51be08cfc7278ce08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:09 +0000
Subject: [PATCH 33/45] fix: index numbers that no int holds

$[2147483647] overflowed, $[99999999999:] selected everything and
$[0:99999999999] nothing.
---
 DFABuilder/include/dfa.h       |  2 +-
 DFABuilder/src/dfa_builder.cpp | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index e4ab450..9b99d61 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -175,7 +175,7 @@ static inline void printDFA(JSONQueryDFA* dfa) {
     for (int i = 1; i< states; ++i) {
         JSONQueryIndexPair pair = getDFAArrayIndex(dfa, i);
         if (pair.lower || pair.upper) {
-            if (pair.upper == pair.lower + 1)
+            if (pair.upper - 1 == pair.lower)
                 printf("\t[%d]", pair.lower);
             else
                 printf("\t[%d:%d]", pair.lower, pair.upper);
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 7f734ba..970d6e9 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -217,6 +217,11 @@ struct StackContext {
 
     }
 
+    // larger numbers stand for the end of every array
+    static int array_bound(double number) {
+        return number < INT_MAX ? (int)number : INT_MAX;
+    }
+
     void construct_dfa(ASTNode* node) {
         if (node->left) {
             construct_dfa(node->left);
@@ -249,9 +254,9 @@ struct StackContext {
                 // [start:end]
                 case jnt_range: {
                     int begin, end;
-                    if (p->left) begin = p->left->number;
+                    if (p->left) begin = array_bound(p->left->number);
                     else begin = INT_MIN;
-                    if (p->right) end = p->right->number;
+                    if (p->right) end = array_bound(p->right->number);
                     else end = INT_MAX;
                     push({set_array_index, begin, end});
                     create_dfa();
@@ -262,10 +267,11 @@ struct StackContext {
                 }
                 // [index]
                 case jnt_number: {
-                    int begin = p->number;
-                    push({set_array_index, begin, begin + 1});
+                    int begin = array_bound(p->number);
+                    int end = array_bound(p->number + 1);
+                    push({set_array_index, begin, end});
                     create_dfa();
-                    array_range[model->size()-1] = {begin, begin + 1};
+                    array_range[model->size()-1] = {begin, end};
                     break;
                 }
                 // [*]
-- 
2.43.0


From cc58900327d9cda12a33a88ea1cef5a9053959ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:44 +0000
Subject: [PATCH 34/45] fix: sets of inputs with a range after other members

---
 DFABuilder/src/Lexer/charset.cpp | 43 +++++++-------------------------
 1 file changed, 9 insertions(+), 34 deletions(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 6e0969a..ec53af1 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -53,42 +53,17 @@ void CharSet::insert(regex_char p, regex_char q) {
         insert(p);
         return;
     }
+    // a range that reaches p begins before it, one that reaches q ends after it
+    auto f = charset.lower_bound(p);
+    if (f != charset.begin() && (--f)->second.type == 1)
+        p = f->first;
+    auto l = charset.upper_bound(q);
+    if (l != charset.end() && l->second.type == -1)
+        q = l->first;
+    // what lies within is part of the range now
+    charset.erase(charset.lower_bound(p), charset.upper_bound(q));
     charset[p].type = 1;
     charset[q].type = -1;
-    map<regex_char, charset_value>::iterator f, l;
-    auto i = charset.find(p);
-    if (i == charset.begin() ||
-        ((i->first - (--i)->first > 1) && (i->second.type != 1))) {
-        // remove from here, without itself
-        if (i->first == p)
-            f = ++i;
-        else
-            f = ++++i;  // - -!
-    } else {
-        if (i->second.type == 1) {
-            // remove from here, withitself
-            f = ++i;
-        } else {
-            // remove before here
-            f = i;
-        }
-    }
-
-    auto j = charset.find(q);
-    if ((++j) == charset.end() ||
-        (j->first - (--j)->first > 1) && ((++j)->second.type != -1)) {
-        // remove before here
-        l = charset.find(q);
-    } else {
-        if (j->second.type == -1) {
-            // remove before here with itself
-            l = j;
-        } else {
-            // remove after here
-            l = ++j;
-        }
-    }
-    if (l->first > f->first) charset.erase(l, f);
 }
 
 void CharSet::insert(regex_char c) {
-- 
2.43.0


From 1bfaa4296bd85485a4a302093229f2310d7d03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 35/45] fix: a copied rule keeps its non-greedy parts

---
 DFABuilder/include/Lexer/regex_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/include/Lexer/regex_model.hpp b/DFABuilder/include/Lexer/regex_model.hpp
index 56c4956..b744488 100644
--- a/DFABuilder/include/Lexer/regex_model.hpp
+++ b/DFABuilder/include/Lexer/regex_model.hpp
@@ -31,7 +31,7 @@ class RegexRef;
 class RegexItem {
 public:
     RegexItem() {}
-    RegexItem(const RegexItem& other): opt(other.opt) {}
+    RegexItem(const RegexItem& other): opt(other.opt), nongreedy(other.nongreedy) {}
     virtual ~RegexItem() {}
 
     enum RegexItemType { rt_list, rt_set, rt_char, rt_ref };
-- 
2.43.0


From 9ba8ff1e4ff840b98d920b788919db6be61b254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 36/45] fix: characters beyond 127 in sets and texts of rules
 are inputs 128 to 255

---
 DFABuilder/include/Lexer/utility.hpp | 8 ++++----
 DFABuilder/src/Lexer/charset.cpp     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/DFABuilder/include/Lexer/utility.hpp b/DFABuilder/include/Lexer/utility.hpp
index 184a6ba..06975c2 100644
--- a/DFABuilder/include/Lexer/utility.hpp
+++ b/DFABuilder/include/Lexer/utility.hpp
@@ -33,7 +33,7 @@ inline regex_char HexStringToDec(const std::string& hex) {
 
 inline regex_char EscapeChar(const char*& tr) {
     int ws;
-    if (*tr != '\\') return *tr;
+    if (*tr != '\\') return (unsigned char)*tr;
     ++tr;
     switch (*tr) {
         // 空白字符集合
@@ -53,7 +53,7 @@ inline regex_char EscapeChar(const char*& tr) {
         case 'U':  // 8 digit hex
             ws = 8;
             break;
-        default: return *tr;
+        default: return (unsigned char)*tr;
     }
     std::string num;
     for (int j = 0; j < ws; ++j) {
@@ -70,7 +70,7 @@ inline regex_char EscapeChar(const char*& tr) {
 
 inline regex_char EscapeChar(std::string::iterator& i, std::string::iterator end) {
     int ws;
-    if (*i != '\\') return *i;
+    if (*i != '\\') return (unsigned char)*i;
     ++i; if (i == end) return -1;
     switch (*i) {
         // 空白字符集合
@@ -89,7 +89,7 @@ inline regex_char EscapeChar(std::string::iterator& i, std::string::iterator end
         case 'U':  // 8 digit hex
             ws = 8;
             break;
-        default: return *i;
+        default: return (unsigned char)*i;
     }
     std::string num;
     for (int j = 0; j < ws; ++j) {
diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index ec53af1..b15fc44 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -30,7 +30,7 @@ CharSet::CharSet(const std::string& _str) {
                 }
                 isConnector = true;
             } else {
-                regex_char c = *i;
+                regex_char c = (unsigned char)*i;
                 if (c == '\\') c = EscapeChar(i, str.end());
                 if (isConnector) {
                     insert(last, c);
-- 
2.43.0


From 8a25e2dc5114dba8d4905b911e82db0e873d6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 37/45] fix: a copied set stays complemented, and is compared
 as such

---
 DFABuilder/src/Lexer/charset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index b15fc44..c76cf1c 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -12,6 +12,8 @@ CharSet::~CharSet() {}
 
 CharSet::CharSet(const CharSet& copy) {
     eclass_sum = copy.eclass_sum;
+    negate = copy.negate;
+    str = copy.str;
     charset.insert(copy.charset.begin(), copy.charset.end());
 }
 
@@ -98,6 +100,6 @@ bool operator==(const charset_value& q, const charset_value& p) {
 }
 
 bool CharSet::operator==(const CharSet& p) {
-    return (this->charset == p.charset);
+    return (this->negate == p.negate && this->charset == p.charset);
 }
 }  // namespace dragontooth
\ No newline at end of file
-- 
2.43.0


From 8df25e908dacc65b5d17aebfc2f61b7540131321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:59 +0000
Subject: [PATCH 38/45] fix: messages go by their level, to the error output by
 default, and files are released

---
 DFABuilder/include/error_center.hpp | 16 ++++++----------
 DFABuilder/src/error_center.cpp     |  1 +
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/DFABuilder/include/error_center.hpp b/DFABuilder/include/error_center.hpp
index a7fe467..c04c208 100644
--- a/DFABuilder/include/error_center.hpp
+++ b/DFABuilder/include/error_center.hpp
@@ -23,12 +23,7 @@ class ErrorCenter {
 public:
     ErrorCenter() : level(ml_default) {}
     ErrorCenter(unsigned int level) : level(level) {}
-    ~ErrorCenter() {
-        if (need_close) {
-            std::ofstream* os = (std::ofstream*)out;
-            os->close();
-        }
-    }
+    ~ErrorCenter() {}
 
     void Fatal(const std::string& msg) { log(msg, ml_fatal); }
     void Error(const std::string& msg) { log(msg, ml_error); }
@@ -40,15 +35,16 @@ public:
     void setOutput(std::ostream& os) { out = &os; }
     void setOutputFile(std::fstream& os) { out = &os; }
     void setOutputFile(const std::string& path) { 
-        out = new std::ofstream(path); 
-        need_close = true;
+        if (file.is_open()) file.close();
+        file.open(path);
+        out = &file;
     }
     
 protected:
     void log(const std::string& msg, int level);
     unsigned int level;
-    std::ostream* out; 
-    bool need_close = false;
+    std::ostream* out = &std::cerr; 
+    std::ofstream file;
 };
 
 }  // namespace dragontooth
\ No newline at end of file
diff --git a/DFABuilder/src/error_center.cpp b/DFABuilder/src/error_center.cpp
index 6838977..7057c76 100644
--- a/DFABuilder/src/error_center.cpp
+++ b/DFABuilder/src/error_center.cpp
@@ -3,6 +3,7 @@
 namespace dragontooth {
 
 void ErrorCenter::log(const std::string& msg, int level) {
+    if ((this->level & level) == 0) return;
     switch (level) {
         case ml_fatal: *out << "FATAL: "; break;
         case ml_error: *out << "ERROR: "; break;
-- 
2.43.0


From dad170d14829864754347c8d3835cb8448241763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 39/45] fix: a holder that nothing has reached holds nothing

---
 DFABuilder/include/pass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/include/pass.hpp b/DFABuilder/include/pass.hpp
index 4f506da..5c553ba 100644
--- a/DFABuilder/include/pass.hpp
+++ b/DFABuilder/include/pass.hpp
@@ -99,7 +99,7 @@ public:
     T* getData() { return (T*)data; }
 
 protected:
-    IPassable* data;
+    IPassable* data = nullptr;
 };
 
 }  // namespace dragontooth
\ No newline at end of file
-- 
2.43.0


From 7bbd98e041e37a84e4c312dc58b284c4e7781d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:20 +0000
Subject: [PATCH 40/45] fix: an element that the text ends with is counted and
 filtered

---
 JSONQuery/worker_automaton.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 151a68a..fa11aa0 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -41,7 +41,7 @@ static inline void syntaxStackInference(Lexer* lexer, int input_token_type, Synt
         {
             if(first_token.token_type==RCB || (first_token.token_type==COM && second_token.token_type==KY))  //val-obj-e
                 syntaxStackPush(shadow_ss, KY);
-            else if(!(first_token.token_type==LCB || first_token.token_type==END)) //elt-obj-e
+            else if(first_token.token_type!=LCB) //elt-obj-e (the stream might end anywhere in an array)
                 syntaxStackPush(shadow_ss, LB);
         }
         else if(syntaxStackSize(ss)==0)
@@ -68,7 +68,7 @@ static inline void syntaxStackInference(Lexer* lexer, int input_token_type, Synt
         {
             if(first_token.token_type==RCB || (first_token.token_type==COM && second_token.token_type==KY))  //val-ary-e
                 syntaxStackPush(shadow_ss, KY);
-            else if(!(first_token.token_type==LB || first_token.token_type==END)) //elt-ary-e
+            else if(first_token.token_type!=LB) //elt-ary-e (the stream might end anywhere in an array)
                 syntaxStackPush(shadow_ss, LB);
         }
         else if(syntaxStackSize(ss)==0)
-- 
2.43.0


From 99e96d96ca18e6436bb84074766b4d5c9c36fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:20 +0000
Subject: [PATCH 41/45] fix: the name that a text ends with is no value

---
 JSONQuery/parallel_automata_execution.h |  2 ++
 JSONQuery/streaming_automaton.c         |  3 ++-
 JSONQuery/worker_automaton.c            | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 145bee4..487f305 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -294,6 +294,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     syntaxStackPop(&ss);
                 }
             }
+            //the unit is nothing but the name that the stream ends with
+            if(count_unmatched_symbols>=0 && us.token_type==PRI && syntaxStackTop(&ss)==LCB) continue;
 
             // find the matched paths inside the unit by using the current state
             int l = 0, tuple_index = -1;
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index 9bef035..84687ee 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -334,7 +334,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 key(qa, qs_elt, token.content, ss, qs);
                 break;
             case PRI:   //primitive
-                if(syntaxStackSize(ss) >= 1)
+                //the name that the stream ends with is no value
+                if(syntaxStackSize(ss) >= 1 && syntaxStackTop(ss)!=LCB)
                 {
                     int matched_type = getMatchedType(qa,qs_elt);
                     if(isDFAOutputValueType(matched_type))  
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index fa11aa0..1b2f2d4 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -499,6 +499,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 key(qa, &qs_elt, token.content, &ss, &qs);
                 break;
             case PRI:   //primitive
+                //the name that the stream ends with is no value
+                if(syntaxStackSize(&ss) >= 1 && syntaxStackTop(&ss)==LCB) break;
                 if(syntaxStackSize(&ss) >= 1)
                 {
                     int start_index=qs_elt.start, end_index=qs_elt.end;
@@ -546,6 +548,24 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     }
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
+                        //the string that the stream ends with might be a name, combiner decides in a unit of its own
+                        if(wa->id>0 && token.content[0]=='"' && lexer.next_start==lexer.end_stream)
+                        {
+                            if(unit.unit_state==UNIT_MATCHED)
+                            {
+                                //create a new unit
+                                addRoots(&unit, qs.node, qs.num_node); 
+                                addEndPosition(&unit, token_begin);
+                                addUnit(ul, unit);
+                                initUnit(&unit);
+                                //automata resetting
+                                resetSyntaxStack(&ss);
+                                resetSyntaxStack(&shadow_ss);
+                                qs_elt = initQueryStacks(&qs, query_state, num_query_state);
+                            }
+                            us.token_type = PRI;
+                            addUnmatchedSymbol(&unit, us);
+                        }
                         if(unit.unit_state!=UNIT_MATCHED)
                         {
                             unit.unit_state = UNIT_MATCHED;
-- 
2.43.0


From d09cef73c3dabf25c476c22a5f49c016f9a439d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:38 +0000
Subject: [PATCH 42/45] fix: a directory or a pipe in the place of a file is no
 data

fopen() succeeds for both, but the size that follows is not that of a
content: the end of the text was written outside of the buffer.
---
 JSONQuery/file_partition.c | 2 ++
 JSONQuery/path_processor.h | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index 1ed8092..9b84c91 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -67,6 +67,8 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     FILE *fp; 
     fp = fopen(file_name,"rb");
     if (fp==NULL) { return pInfo;}
+    //directories and pipes can be opened, but have no content of a known size
+    if (fseek(fp,0,SEEK_SET)!=0 || (fgetc(fp)==EOF && ferror(fp))) { fclose(fp); return pInfo;}
     fseek (fp, 0, SEEK_END);
     file_size = ftell(fp);
     rewind(fp);     
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 70dab80..06610b4 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -33,6 +33,8 @@ char* loadInputStream(char* file_name)
     int size;
     fp = fopen(file_name,"rb");
     if (fp==NULL) { return NULL;}
+    //directories and pipes can be opened, but have no content of a known size
+    if (fseek(fp,0,SEEK_SET)!=0 || (fgetc(fp)==EOF && ferror(fp))) { fclose(fp); return NULL;}
     fseek (fp, 0, SEEK_END);
     size=ftell(fp);
     rewind(fp); 
@@ -50,6 +52,8 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     int size;
     fp = fopen(file_name,"rb");
     if (fp==NULL) { return NULL;}
+    //directories and pipes can be opened, but have no content of a known size
+    if (fseek(fp,0,SEEK_SET)!=0 || (fgetc(fp)==EOF && ferror(fp))) { fclose(fp); return NULL;}
     fseek (fp, 0, SEEK_END);
     size=ftell(fp);
     rewind(fp);
-- 
2.43.0


From a22eeae20a2ff7e19ab77139171da448a2291819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:40 +0000
Subject: [PATCH 43/45] fix: popping goes back to the start condition that was
 pushed last

---
 DFABuilder/interface/dragontooth.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index bf94b98..adb8f2e 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -553,7 +553,9 @@ static inline bool dtl_ActionDecode(DTLexerState* ls, uint32_t* begin_state,
         token->action = true;
     }
     if (dtl_checkAction(code, ac_pop)) {
-        *begin_state = dts_Pop(ls->begin_stack);
+        // go back to the saved begin state, the first one is never removed
+        *begin_state = dts_Back(ls->begin_stack);
+        if (ls->begin_stack->size > 1) dts_Pop(ls->begin_stack);
     }
     if (dtl_checkAction(code, ac_more)) {
         /** ac_more is just like ignore but it will not record the new postion
-- 
2.43.0


From 10587182f72aaf76f7d9a16ab71259252330ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:40 +0000
Subject: [PATCH 44/45] fix: the saved content of a string ends before its
 closing quote

---
 DFABuilder/interface/dragontooth.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index adb8f2e..45d35be 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -467,19 +467,19 @@ static inline char* dtl_SaveToken(DTLexerToken* token) {
  * This function will save the data without the " before and after the content
  */
 static inline char* dtl_SaveString(DTLexerToken* token) {
-    char* buffer = (char*)malloc(token->size - 1);
-    int i, j;
-    for (i = 0; i < token->size; ++i) {
+    size_t i, j, size = token->size < 2 ? 0 : token->size - 2;
+    char* buffer = (char*)malloc(size + 1);
+    for (i = 0; i < size; ++i) {
         buffer[i] = token->data[i + 1];
         if (buffer[i] == '\0') break;
     }
-    if (i < token->size) {
+    if (i < size) {
         j = i;
-        for (; i < token->size; ++i) {
+        for (; i < size; ++i) {
             buffer[i] = token->buffer[i - j];
         }
     }
-    buffer[token->size - 1] = '\0';
+    buffer[size] = '\0';
     return buffer;
 }
 
-- 
2.43.0


From f4e190b84c803236329326e0a68b67f5431980e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:12 +0000
Subject: [PATCH 45/45] fix: a newline that ends a word is counted once

---
 DFABuilder/interface/dragontooth.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index 45d35be..3c774bb 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -637,13 +637,6 @@ static inline int32_t dtl_Next(DTLexerState* ls, DTLexerToken* token) {
         // FIXME: There is a problem, if the token is not finished but reach the EOF, 
         //        it won't show error
         while (h != DTL_EOF) {
-#ifdef DTL_LINENO
-            if (h == '\n') {
-                ls->line++;
-                ls->line_begin = (ls->head - ls->buffer) + 1;
-            }
-#endif
-
             next_state = dtl_nextState(ls, state, dtl_eq_mapping(ls, h));
 
             // printf("%d : %d -> %d\n", state, ls->m_ec[ h ], next_state);
@@ -651,6 +644,12 @@ static inline int32_t dtl_Next(DTLexerState* ls, DTLexerToken* token) {
                 int code = dtl_check_stop(ls, token, &state);
                 if (code == -2) continue; else return code;
             }
+#ifdef DTL_LINENO
+            if (h == '\n') {
+                ls->line++;
+                ls->line_begin = (ls->head - ls->buffer) + 1;
+            }
+#endif
             state = next_state;
             ls->head++;
             h = *(ls->head);
-- 
2.43.0


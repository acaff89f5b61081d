From f17abe84d5844afdc919530511b66715846d3d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:40 +0000
Subject: [PATCH 01/43] fix: restore the recursion depth when a recursive
 production fails

A failed dsl::recurse/dsl::recurse_branch left the depth counter incremented, so
every error that was recovered from consumed one level of the recursion limit
and later, unrelated recursion reported max_recursion_depth_exceeded.
---
 include/lexy/dsl/production.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..721bbc7 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -199,10 +199,16 @@ struct _recb : branch_base
         template <typename NextParser, typename Context, typename... Args>
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
-            using depth = _depth_handler<NextParser>;
+            using depth            = _depth_handler<NextParser>;
+            const auto entry_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            if (_impl.template finish<depth>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We might have failed before the depth was decremented again.
+            context.control_block->cur_depth = entry_depth;
+            return false;
         }
     };
 
@@ -212,12 +218,17 @@ struct _recb : branch_base
         template <typename Context, typename Reader, typename... Args>
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
-            using depth = _depth_handler<NextParser>;
+            using depth            = _depth_handler<NextParser>;
+            const auto entry_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
+            if (lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
+                                                                 LEXY_FWD(args)...))
+                return true;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            // We might have failed before the depth was decremented again.
+            context.control_block->cur_depth = entry_depth;
+            return false;
         }
     };
 
-- 
2.43.0


From da23bb4dc02d6d85a7f8f5208b53f7930ed4df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:35 +0000
Subject: [PATCH 02/43] fix: re-enable whitespace skipping after a failed
 dsl::no_whitespace() and keep it disabled when nested

---
 include/lexy/dsl/whitespace.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..23faa71 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -271,11 +271,20 @@ struct _wsn : _copy_base<Rule>
         }
 
         template <typename NextParser, typename Context, typename... Args>
-        LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
+        LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
+            // It is already disabled by an outer no_whitespace(), which will enable it again.
+            if (!context.control_block->enable_whitespace_skipping)
+                return rule.template finish<NextParser>(context, reader, LEXY_FWD(args)...);
+
             // Finish the rule with whitespace skipping disabled.
             context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            auto result
+                = rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+
+            // The rule might have failed or exited a loop before whitespace skipping was enabled.
+            context.control_block->enable_whitespace_skipping = true;
+            return result;
         }
     };
 
@@ -295,10 +304,20 @@ struct _wsn : _copy_base<Rule>
             }
             else
             {
+                // It is already disabled by an outer no_whitespace(), which will enable it again.
+                if (!context.control_block->enable_whitespace_skipping)
+                    return lexy::parser_for<Rule, NextParser>::parse(context, reader,
+                                                                     LEXY_FWD(args)...);
+
                 // Parse the rule with whitespace skipping disabled.
                 context.control_block->enable_whitespace_skipping = false;
                 using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                auto result  = parser::parse(context, reader, LEXY_FWD(args)...);
+
+                // The rule might have failed or exited a loop before whitespace skipping was
+                // enabled.
+                context.control_block->enable_whitespace_skipping = true;
+                return result;
             }
         }
     };
-- 
2.43.0


From fb67dafb48078f2aa61409757e26342618c11540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:15 +0000
Subject: [PATCH 03/43] fix: don't cancel a list item whose finish() has
 already failed when recovering from a missing separator

---
 include/lexy/dsl/list.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index f2f6885..d90286a 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -223,8 +223,14 @@ struct _lstt : rule_base
                         if constexpr (lexy::is_branch_rule<Item>)
                         {
                             lexy::branch_parser_for<Item, Reader> item{};
-                            if (item.try_parse(context.control_block, reader)
-                                && item.template finish<lexy::sink_parser>(context, reader, sink))
+                            if (!item.try_parse(context.control_block, reader))
+                            {
+                                // Not an item, recover.
+                                item.cancel(context);
+                                state = _state::recovery;
+                                break;
+                            }
+                            else if (item.template finish<lexy::sink_parser>(context, reader, sink))
                             {
                                 // Continue after an item has been parsed.
                                 state = _state::terminator;
@@ -232,8 +238,7 @@ struct _lstt : rule_base
                             }
                             else
                             {
-                                // Not an item, recover.
-                                item.cancel(context);
+                                // Started an item, but it failed; recover from it.
                                 state = _state::recovery;
                                 break;
                             }
-- 
2.43.0


From b64c22c1533cfc68679df40e6826f25d5759ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:28 +0000
Subject: [PATCH 04/43] fix: don't retry the same separator or item forever
 when recovering in a list with terminator

---
 include/lexy/dsl/list.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index d90286a..ec09a21 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -189,6 +189,9 @@ struct _lstt : rule_base
         auto state = initial_state;
 
         [[maybe_unused]] auto sep_pos = reader.position();
+        // False if recovery already tried to resume the list at the current position, without
+        // making progress; trying again would do so forever.
+        [[maybe_unused]] auto can_resume = true;
         while (true)
         {
             switch (state)
@@ -315,7 +318,7 @@ struct _lstt : rule_base
                         sep_pos = reader.position();
 
                         lexy::branch_parser_for<typename Sep::rule, Reader> sep{};
-                        if (sep.try_parse(context.control_block, reader))
+                        if (can_resume && sep.try_parse(context.control_block, reader))
                         {
                             auto recovery_end = reader.position();
                             context.on(_ev::token{}, lexy::error_token_kind, recovery_begin,
@@ -331,11 +334,12 @@ struct _lstt : rule_base
                             else
                             {
                                 // Need to recover from this.
-                                state = _state::recovery;
+                                can_resume = reader.position() != recovery_end;
+                                state      = _state::recovery;
                                 break;
                             }
                         }
-                        else
+                        else if (can_resume)
                         {
                             sep.cancel(context);
                         }
@@ -349,7 +353,7 @@ struct _lstt : rule_base
                     else if constexpr (lexy::is_branch_rule<Item>)
                     {
                         lexy::branch_parser_for<Item, Reader> item{};
-                        if (item.try_parse(context.control_block, reader))
+                        if (can_resume && item.try_parse(context.control_block, reader))
                         {
                             auto recovery_end = reader.position();
                             context.on(_ev::token{}, lexy::error_token_kind, recovery_begin,
@@ -365,11 +369,12 @@ struct _lstt : rule_base
                             else
                             {
                                 // Need to recover from this.
-                                state = _state::recovery;
+                                can_resume = reader.position() != recovery_end;
+                                state      = _state::recovery;
                                 break;
                             }
                         }
-                        else
+                        else if (can_resume)
                         {
                             item.cancel(context);
                         }
@@ -407,6 +412,7 @@ struct _lstt : rule_base
 
                     // Consume one code unit and try again.
                     reader.bump();
+                    can_resume = true;
                 }
                 break;
             }
-- 
2.43.0


From f699a5f26cbcf51243c96f7f8037ee759a4d8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 05/43] fix: don't duplicate the input of a cancelled
 transparent production in the parse tree

---
 include/lexy/action/parse_as_tree.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/lexy/action/parse_as_tree.hpp b/include/lexy/action/parse_as_tree.hpp
index 5c5bd9f..a8e3eb2 100644
--- a/include/lexy/action/parse_as_tree.hpp
+++ b/include/lexy/action/parse_as_tree.hpp
@@ -26,7 +26,9 @@ public:
         using iterator = typename Reader::iterator;
 
     public:
-        event_handler(production_info info) : _validate(info) {}
+        event_handler(production_info info)
+        : _validate(info), _is_transparent(info.is_transparent)
+        {}
 
         void on(_pth& handler, parse_events::grammar_start, iterator)
         {
@@ -79,8 +81,11 @@ public:
                 // Cancelling the production removes all nodes from the tree.
                 // To ensure that the parse tree remains lossless, we add everything consumed by it
                 // as an error token.
+                // (For a transparent production, its nodes are part of the parent and stay there.)
                 handler._builder->cancel_production(LEXY_MOV(_marker));
-                handler._builder->token(lexy::error_token_kind, _validate.production_begin(), pos);
+                if (!_is_transparent)
+                    handler._builder->token(lexy::error_token_kind, _validate.production_begin(),
+                                            pos);
             }
 
             _validate.on(handler._validate, ev, pos);
@@ -127,6 +132,7 @@ public:
     private:
         typename Tree::builder::marker      _marker;
         typename _vh<Reader>::event_handler _validate;
+        bool                                _is_transparent;
     };
 
     template <typename Production, typename State>
-- 
2.43.0


From b9044c3552e2231df31d19daf6c06c8a358e427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 06/43] fix: don't overwrite parse tree nodes when unwinding to
 the end of a full block

---
 include/lexy/parse_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 20f3fe9..0f4535e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -300,7 +300,7 @@ public:
         // Note: this is not guaranteed to work by the standard;
         // We'd have to go through std::less instead.
         // However, on all implementations I care about, std::less just does < anyway.
-        if (_cur_block->memory <= pos && pos < _cur_block->end())
+        if (_cur_block->memory <= pos && pos <= _cur_block->end())
             // We're still in the same block, just reset position.
             _cur_pos = pos;
         else
-- 
2.43.0


From 4eb2ff10492348703373fbb06a3e1de94bf6c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 07/43] fix: don't leak memory when re-using a parse tree that
 consists of multiple blocks

---
 include/lexy/parse_tree.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 0f4535e..0b06152 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -267,9 +267,10 @@ public:
     {
         if (remaining_capacity() < size)
         {
-            auto next        = block::allocate(_resource);
-            _cur_block->next = next;
-            _cur_block       = next;
+            // We might have a block left over from before a reset().
+            if (!_cur_block->next)
+                _cur_block->next = block::allocate(_resource);
+            _cur_block       = _cur_block->next;
             _cur_pos         = &_cur_block->memory[0];
         }
     }
-- 
2.43.0


From 7fef71615d88d4932679a0f21fed4fc3b13cd9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 08/43] fix: reset the size of a parse tree when it is cleared

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 0b06152..9e392d4 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -368,7 +368,9 @@ public:
     void clear() noexcept
     {
         _buffer.reset();
-        _root = nullptr;
+        _root  = nullptr;
+        _size  = 0;
+        _depth = 0;
     }
 
     //=== node access ===//
-- 
2.43.0


From 3f1d111363b980f2b55440ee6ab663e068d03563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 09/43] fix: support comparing the node kinds of a token and a
 production

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 9e392d4..11ef67e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -794,7 +794,9 @@ public:
 
     friend bool operator==(_pt_node_kind lhs, _pt_node_kind rhs)
     {
-        if (lhs.is_token() && rhs.is_token())
+        if (lhs.is_token() != rhs.is_token())
+            return false;
+        else if (lhs.is_token())
             return lhs._ptr->as_token()->kind == rhs._ptr->as_token()->kind;
         else
             return lhs._ptr->as_production()->id == rhs._ptr->as_production()->id;
-- 
2.43.0


From 590096e9980417415d85a4f352f02c92d4e2b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:12 +0000
Subject: [PATCH 10/43] fix: don't count the nodes of a cancelled production in
 the size of the parse tree

---
 include/lexy/parse_tree.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 11ef67e..b68f0c0 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -270,8 +270,8 @@ public:
             // We might have a block left over from before a reset().
             if (!_cur_block->next)
                 _cur_block->next = block::allocate(_resource);
-            _cur_block       = _cur_block->next;
-            _cur_pos         = &_cur_block->memory[0];
+            _cur_block = _cur_block->next;
+            _cur_pos   = &_cur_block->memory[0];
         }
     }
 
@@ -425,7 +425,7 @@ public:
     class marker
     {
     public:
-        marker() : marker(nullptr, 0) {}
+        marker() : marker(nullptr, 0, 0) {}
 
     private:
         // Where to unwind when done.
@@ -439,16 +439,20 @@ public:
         _detail::pt_node<Reader>* first_child;
         _detail::pt_node<Reader>* last_child;
 
+        // The size of the tree when the node was started.
+        std::size_t begin_size;
+
         // For a production node, depth of the production node.
         // For a container node, depth of the children.
         std::size_t cur_depth;
         // The maximum local depth seen in the subtree beginning at the marker.
         std::size_t local_max_depth;
 
-        explicit marker(void* unwind_pos, std::size_t cur_depth,
+        explicit marker(void* unwind_pos, std::size_t begin_size, std::size_t cur_depth,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth)
+          last_child(nullptr), begin_size(begin_size), cur_depth(cur_depth),
+          local_max_depth(cur_depth)
         {}
 
         void clear()
@@ -552,7 +556,7 @@ public:
         _result._depth = 0;
 
         // Begin construction at the root.
-        _cur = marker(_result._buffer.top(), 0, _result._root);
+        _cur = marker(_result._buffer.top(), _result._size, 0, _result._root);
     }
     explicit builder(production_info production) : builder(parse_tree(), production) {}
 
@@ -601,7 +605,7 @@ public:
 
         // Subsequent insertions are to the new node, so update marker and return old one.
         auto old = LEXY_MOV(_cur);
-        _cur     = marker(node, old.cur_depth + 1, node);
+        _cur     = marker(node, _result._size, old.cur_depth + 1, node);
         return old;
     }
 
@@ -628,6 +632,7 @@ public:
             return;
 
         _result._buffer.unwind(_cur.unwind_pos);
+        _result._size = _cur.begin_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
@@ -648,7 +653,7 @@ public:
 
         // Create a new container marker and activate it.
         auto old = LEXY_MOV(_cur);
-        _cur     = marker(unwind_pos, old.cur_depth);
+        _cur     = marker(unwind_pos, _result._size, old.cur_depth);
         return old;
     }
 
@@ -670,7 +675,7 @@ public:
 
         // Create a new container that will contain the production as its only child.
         // As such, it logically starts at the same position and depth as the current container.
-        auto new_container = marker(_cur.unwind_pos, _cur.cur_depth);
+        auto new_container = marker(_cur.unwind_pos, _cur.begin_size, _cur.cur_depth);
         new_container.insert(node);
 
         // The production contains all the children.
@@ -712,6 +717,7 @@ public:
 
         // Deallocate everything we've inserted.
         _result._buffer.unwind(_cur.unwind_pos);
+        _result._size = _cur.begin_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
-- 
2.43.0


From 5e8084623cd5f4c88ed9eec0547dc41433d36609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:21 +0000
Subject: [PATCH 11/43] fix: unicode case folding of literal sets and keywords
 when resetting the reader

---
 include/lexy/dsl/case_folding.hpp | 1 +
 include/lexy/dsl/literal.hpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..c144366 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -261,6 +261,7 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
     constexpr void reset(marker m) noexcept
     {
         _impl.reset(m);
+        _fill();
     }
 };
 
diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..e2c9996 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -255,7 +255,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // The reader already does the necessary case folding.
+        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::template _impl<>::try_match(
+            reader);
         return true;
     }
 
-- 
2.43.0


From 54343e9f3fb15ca5b7da8144c0c34e7e1eac43ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:10 +0000
Subject: [PATCH 12/43] fix: report the correct position of a partial match of
 a literal when the reader has wider code units

---
 include/lexy/dsl/literal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index e2c9996..a4b4785 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,7 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From f597d841a27436d0df334f2fd415acd2629731e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:33 +0000
Subject: [PATCH 13/43] fix: reserve_suffix() must not skip over a suffix that
 overlaps with an earlier match

---
 include/lexy/dsl/identifier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..0e112d0 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,8 +125,10 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
-            if (lexy::try_match_token(Set{}, reader)
-                && reader.peek() == decltype(reader)::encoding::eof())
+            // Match on a copy: a match that isn't a suffix must not skip over the beginning of one.
+            auto set_reader = reader;
+            if (lexy::try_match_token(Set{}, set_reader)
+                && set_reader.peek() == decltype(reader)::encoding::eof())
                 return true;
             else if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
-- 
2.43.0


From 0fe18ee23648f24ebef547a73d8f39655ba97297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:24 +0000
Subject: [PATCH 14/43] fix: don't report an integer overflow because of
 trailing characters that are not digits

---
 include/lexy/dsl/integer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..8ff60e8 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,6 +338,12 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
+        if constexpr (!AssumeOnlyDigits)
+        {
+            // Anything that is not a digit does not contribute to the value.
+            while (cur != end && Base::digit_value(*cur) >= Base::digit_radix)
+                ++cur;
+        }
         return {value, cur != end};
     }
 };
-- 
2.43.0


From e164aff40d8112687bdb26165c574082ae8992cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:24 +0000
Subject: [PATCH 15/43] fix: pass the position to an operator tag that is
 constructed with the parse state

---
 include/lexy/dsl/operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/operator.hpp b/include/lexy/dsl/operator.hpp
index a783c01..fc2f49b 100644
--- a/include/lexy/dsl/operator.hpp
+++ b/include/lexy/dsl/operator.hpp
@@ -122,7 +122,8 @@ struct _op : branch_base
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor_with_state, op_tag_type,
                                                       Reader, Context>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
-                                       op_tag_type(*context.control_block->parse_state, op.pos));
+                                       op_tag_type(*context.control_block->parse_state,
+                                                   op.cur.position()));
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor, op_tag_type, Reader>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
                                        op_tag_type(op.cur.position()));
-- 
2.43.0


From 0fa1525454010da26551895c322f87532ed36eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:00 +0000
Subject: [PATCH 16/43] fix: continue with a separator after digits that have
 been matched in bulk

---
 include/lexy/dsl/digit.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..4bb1262 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -334,16 +334,26 @@ constexpr bool _match_digits_sep(Reader& reader)
         else
         {
             // Attempt to consume as many digits as possible.
+            [[maybe_unused]] auto had_digits = false;
             if constexpr (lexy::_detail::is_swar_reader<Reader>)
             {
                 using char_type = typename Reader::encoding::char_type;
                 while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                {
                     reader.bump_swar();
+                    had_digits = true;
+                }
             }
 
             if (!lexy::try_match_token(digit<Base>, reader))
+            {
+                // There might be a separator after the digits we've just consumed.
+                if (had_digits)
+                    continue;
+
                 // If we're not having a digit, we're done.
                 break;
+            }
         }
     }
 
-- 
2.43.0


From 693cffdab772ff61f2232773528f8c30d2ba5fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 17/43] fix: visualize non-ASCII code units of an
 ascii_encoding lexeme

They were dropped silently; print them as escaped bytes like malformed UTF-8.
---
 include/lexy/visualize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f553087..3904fa2 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -396,7 +396,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
                 {
                     if constexpr (std::is_same_v<encoding,
                                                  lexy::utf8_encoding> //
-                                  || std::is_same_v<encoding, lexy::utf8_char_encoding>)
+                                  || std::is_same_v<encoding, lexy::utf8_char_encoding>
+                                  || std::is_same_v<encoding, lexy::ascii_encoding>)
                     {
                         out = write_escaped_byte(out, static_cast<unsigned char>(*cur & 0xFF));
                     }
-- 
2.43.0


From efa5598f9c32b3732c1443835049e88615eeb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 18/43] fix: produce the current value of a context flag or
 counter

`.value()` passed a reference to the variable, so later changes to it altered the
already produced value.
---
 include/lexy/dsl/context_counter.hpp | 2 +-
 include/lexy/dsl/context_flag.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/context_counter.hpp b/include/lexy/dsl/context_counter.hpp
index 1616871..6ae4c51 100644
--- a/include/lexy/dsl/context_counter.hpp
+++ b/include/lexy/dsl/context_counter.hpp
@@ -153,7 +153,7 @@ struct _ctx_cvalue : rule_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_counter<Id>::get(context.control_block));
+                                     int(_ctx_counter<Id>::get(context.control_block)));
         }
     };
 };
diff --git a/include/lexy/dsl/context_flag.hpp b/include/lexy/dsl/context_flag.hpp
index b7b9151..7c57466 100644
--- a/include/lexy/dsl/context_flag.hpp
+++ b/include/lexy/dsl/context_flag.hpp
@@ -98,7 +98,7 @@ struct _ctx_fvalue : rule_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_flag<Id>::get(context.control_block));
+                                     bool(_ctx_flag<Id>::get(context.control_block)));
         }
     };
 };
-- 
2.43.0


From 9945f54e24b3c83e690529bc335583e689c3a409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 19/43] fix: restore the location anchor when a traced
 production finishes

An event of the parent positioned before the child (e.g. an unterminated delimited)
was otherwise located relative to the child's line.
---
 include/lexy/action/trace.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 540f72d..17a0a79 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -336,6 +336,9 @@ public:
         {
             auto loc = handler.get_location(pos);
             handler._writer.write_finish(loc);
+
+            // Later events of the parent can be positioned before this production.
+            handler._anchor = *_previous_anchor;
         }
         void on(_th& handler, parse_events::production_cancel, iterator pos)
         {
-- 
2.43.0


From 288489cf05fd5e73d52ae60e20a6a33ec1d9d220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:50 +0000
Subject: [PATCH 20/43] fix: pass TokenKind on to the trace handler

trace_to<Production, TokenKind>() printed the names of the default token kinds.
---
 include/lexy/action/trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 17a0a79..1369f59 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -444,7 +444,7 @@ struct trace_action
     visualization_options _opts;
     State*                _state = nullptr;
 
-    using handler = _th<OutputIt, Input>;
+    using handler = _th<OutputIt, Input, TokenKind>;
     using state   = State;
     using input   = Input;
 
-- 
2.43.0


From d741c202565e1aba832fb581d1dae39bab1a565e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:41 +0000
Subject: [PATCH 21/43] fix: decode UTF-16 surrogate pairs above U+1FFFF
 correctly

The offset was or-ed instead of added, so it was lost whenever its bit was already set.
---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From 64bf3adee57b75e4ec6600c6fcf46a9a5828ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:11 +0000
Subject: [PATCH 22/43] fix: treat the code units F8 to FE as malformed UTF-8,
 not as the end of the input

Visualization stopped at them and dropped the rest of the lexeme.
---
 include/lexy/_detail/code_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index e0c581c..308736e 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -264,10 +264,14 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             else
                 return {cp, cp_error::success, reader.current()};
         }
-        else // FE or FF
+        else if (reader.peek() == Reader::encoding::eof())
         {
             return {{}, cp_error::eof, reader.current()};
         }
+        else // F8 to FE, which never occur in UTF-8.
+        {
+            return {{}, cp_error::leads_with_trailing, reader.current()};
+        }
     }
     else if constexpr (std::is_same_v<typename Reader::encoding, lexy::utf16_encoding>)
     {
-- 
2.43.0


From fa12cd4f6e3ac8e1a7ef9c2ca940c14f24d33a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 23/43] fix: the sibling range of a root node is empty

It contained the token of the remaining input and then dereferenced a null pointer.
---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index b68f0c0..ac1f463 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1001,6 +1001,10 @@ public:
 
         iterator begin() const noexcept
         {
+            // The root node has no siblings (its next node is the remaining input).
+            if (_pt_node(_node).kind().is_root())
+                return end();
+
             // We begin with the next node after ours.
             // If we don't have siblings, this is our node itself.
             return ++iterator(_node);
-- 
2.43.0


From 7e597ca59b8ab672a9f4a02c1be48c592df64dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:29 +0000
Subject: [PATCH 24/43] fix: reserve memory for the first child pointer of a
 parse tree container

After an empty container at the end of a block, the next one wrote past the block.
---
 include/lexy/parse_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index ac1f463..b6d792b 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -648,6 +648,8 @@ public:
             //
             // If our parent is another container, its start_container() function took care of it.
             // If our parent already has a child, the first_child pointer is taken care of.
+            // There may have been empty containers before us, so we need to check for space.
+            _result._buffer.reserve(sizeof(_detail::pt_node<Reader>*));
             _result._buffer.template allocate<_detail::pt_node<Reader>*>(nullptr);
         }
 
-- 
2.43.0


From 4edef5f86e5ce4542f416da0863516f82cb2633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:29 +0000
Subject: [PATCH 25/43] fix: an empty root production has a position token in
 the parse tree, like any other

Without it, position() and covering_lexeme() of the root dereferenced a null pointer, although
they are documented to work for every tree created by parse_as_tree().
---
 include/lexy/action/parse_as_tree.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/lexy/action/parse_as_tree.hpp b/include/lexy/action/parse_as_tree.hpp
index a8e3eb2..8c09d70 100644
--- a/include/lexy/action/parse_as_tree.hpp
+++ b/include/lexy/action/parse_as_tree.hpp
@@ -63,13 +63,12 @@ public:
 
         void on(_pth& handler, parse_events::production_finish ev, iterator pos)
         {
+            // Every production has at least one child, also the root.
+            if (handler._builder->current_child_count() == 0)
+                handler._builder->token(lexy::position_token_kind, _validate.production_begin(),
+                                        _validate.production_begin());
             if (--handler._depth > 0)
-            {
-                if (handler._builder->current_child_count() == 0)
-                    handler._builder->token(lexy::position_token_kind, _validate.production_begin(),
-                                            _validate.production_begin());
                 handler._builder->finish_production(LEXY_MOV(_marker));
-            }
 
             _validate.on(handler._validate, ev, pos);
         }
-- 
2.43.0


From 1e2acf21e191a22e19606a4b54915eaed278ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:35 +0000
Subject: [PATCH 26/43] fix: parse trees with a memory resource can be
 inspected

Only the default parse tree was a friend of the node class, so root() and traverse() did not
compile for any other MemoryResource.
---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index b6d792b..a0575da 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1102,7 +1102,8 @@ private:
 
     _detail::pt_node<Reader>* _ptr;
 
-    friend parse_tree<Reader, TokenKind>;
+    template <typename R, typename TK, typename MemoryResource>
+    friend class parse_tree;
     friend parse_tree_input_traits<_pt_node<Reader, TokenKind>>;
 };
 
-- 
2.43.0


From c0982566342c5459f56c7bee021bbc29137c71bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:33 +0000
Subject: [PATCH 27/43] fix: vectorized ASCII graph and print do not run past
 the end of UTF-32 input

---
 include/lexy/dsl/ascii.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/lexy/dsl/ascii.hpp b/include/lexy/dsl/ascii.hpp
index 5076328..0f0408e 100644
--- a/include/lexy/dsl/ascii.hpp
+++ b/include/lexy/dsl/ascii.hpp
@@ -383,13 +383,10 @@ struct _graph : char_class_base<_graph>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the biggest value where it overflowed (0xFF for single byte
+        // encodings, but also the EOF sentinel of UTF-32), so do a separate check.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0, or space.
         // If we subtract one we turn 0x21-0x01 into column 0 and 0x00 to a value definitely not in
@@ -428,13 +425,10 @@ struct _print : char_class_base<_print>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the biggest value where it overflowed (0xFF for single byte
+        // encodings, but also the EOF sentinel of UTF-32), so do a separate check.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0.
         constexpr auto mask = lexy::_detail::swar_fill_compl(char_type(0b11111));
-- 
2.43.0


From 2f4cf39bdd5defb32252d1ff13186cfd2899f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:38 +0000
Subject: [PATCH 28/43] fix: a subgrammar can be parsed as part of a parse tree

---
 include/lexy/action/base.hpp    | 23 ++++++++++++++++-------
 include/lexy/dsl/subgrammar.hpp |  4 ++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 3e57a6f..b0b5cdd 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -198,10 +198,10 @@ namespace lexy
 {
 constexpr void* no_parse_state = nullptr;
 
+// Parses the production as a root production, but without starting or finishing the grammar.
 template <typename Handler, typename State, typename Production, typename Reader>
-constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+constexpr auto _do_root_production(_pc<Handler, State, Production>& context, Reader& reader)
 {
-    context.on(parse_events::grammar_start{}, reader.position());
     context.on(parse_events::production_start{}, reader.position());
 
     // We parse whitespace, theen the rule, then finish.
@@ -211,15 +211,24 @@ constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& read
     auto rule_result = parser::parse(context, reader);
 
     if (rule_result)
-    {
         context.on(parse_events::production_finish{}, reader.position());
-        context.on(parse_events::grammar_finish{}, reader);
-    }
     else
-    {
         context.on(parse_events::production_cancel{}, reader.position());
+
+    return rule_result;
+}
+
+template <typename Handler, typename State, typename Production, typename Reader>
+constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
+{
+    context.on(parse_events::grammar_start{}, reader.position());
+
+    auto rule_result = _do_root_production(context, reader);
+
+    if (rule_result)
+        context.on(parse_events::grammar_finish{}, reader);
+    else
         context.on(parse_events::grammar_cancel{}, reader);
-    }
 
     return rule_result;
 }
diff --git a/include/lexy/dsl/subgrammar.hpp b/include/lexy/dsl/subgrammar.hpp
index 6a291df..de9d03d 100644
--- a/include/lexy/dsl/subgrammar.hpp
+++ b/include/lexy/dsl/subgrammar.hpp
@@ -42,8 +42,8 @@ using _subgrammar_for = _subgrammar<Production, typename Action::handler, typena
               Reader&                                                       reader)                \
     {                                                                                              \
         lexy::_pc<Handler, State, Production> context(control_block);                              \
-        auto                                  success = ::lexy::_do_action(context, reader);       \
-        value                                         = LEXY_MOV(context.value);                   \
+        auto success = ::lexy::_do_root_production(context, reader);                               \
+        value        = LEXY_MOV(context.value);                                                    \
         return success;                                                                            \
     }
 
-- 
2.43.0


From 837beb4fc3eb4fe656b1c6a0a8715b77124fed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 29/43] fix: rule_scanner::recursion_depth() compiles

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 652342c..20eab30 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -429,7 +429,7 @@ public:
 
     constexpr std::size_t recursion_depth() const noexcept
     {
-        auto& cb = _context->control_block();
+        auto& cb = *_context->control_block;
         return static_cast<std::size_t>(cb.cur_depth);
     }
 
-- 
2.43.0


From 2ed67f3719c4b423e17dd9ddb5213e3b66e71c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 30/43] fix: scan_result does not move from an lvalue

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 20eab30..1a89582 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -52,7 +52,7 @@ public:
     template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
     constexpr scan_result(U&& value)
     {
-        _value.emplace(LEXY_MOV(value));
+        _value.emplace(LEXY_FWD(value));
     }
 
     constexpr explicit operator bool() const noexcept
-- 
2.43.0


From 05efef3fb05a0d2ef7f7ffbc4e74aa9a6e3dcaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 31/43] fix: an empty buffer without memory can be read

---
 include/lexy/input/buffer.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..9d34d84 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -265,12 +265,27 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+        {
+            // A default constructed or moved-from buffer has no memory, and thus no sentinel.
+            static constexpr _empty_data empty;
+            return _buffer_reader<encoding>(_data ? _data : empty.data);
+        }
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
 
 private:
+    struct _empty_data
+    {
+        char_type data[_detail::round_size_for_swar(1)];
+
+        constexpr _empty_data() noexcept : data()
+        {
+            for (auto& c : data)
+                c = encoding::eof();
+        }
+    };
+
     char_type* allocate(std::size_t size) const
     {
         if constexpr (_has_sentinel)
-- 
2.43.0


From aa524e98f6191404b4317c45e2267aa7d625c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:42 +0000
Subject: [PATCH 32/43] fix: only 00 00 FE FF is a UTF-32 byte-order mark

---
 include/lexy/input/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 9d34d84..be900fa 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -455,7 +455,7 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From 49b54e28264dccd90ccb6fddb06da1a804f30d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 33/43] fix: lexy::concat can be called without arguments, as
 documented

---
 include/lexy/callback/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lexy/callback/container.hpp b/include/lexy/callback/container.hpp
index a23c6b4..da67211 100644
--- a/include/lexy/callback/container.hpp
+++ b/include/lexy/callback/container.hpp
@@ -310,6 +310,11 @@ struct _concat
 {
     using return_type = Container;
 
+    constexpr Container operator()() const
+    {
+        return Container();
+    }
+
     constexpr Container operator()(nullopt&&) const
     {
         return Container();
-- 
2.43.0


From d756094e4cbd19dfa883c4eeb01bb13d8442395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 34/43] fix: lexy::callback(sink) does not return a reference
 to its local sink callback

---
 include/lexy/callback/adapter.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/callback/adapter.hpp b/include/lexy/callback/adapter.hpp
index 803b6db..60b2457 100644
--- a/include/lexy/callback/adapter.hpp
+++ b/include/lexy/callback/adapter.hpp
@@ -84,8 +84,9 @@ struct _cb_from_sink
     using return_type = typename _cb::return_type;
 
     template <typename... Args>
-    constexpr auto operator()(Args&&... args) const -> decltype((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)),
-                                                                 ..., LEXY_DECLVAL(_cb&&).finish()))
+    constexpr auto operator()(Args&&... args) const
+        -> LEXY_DECAY_DECLTYPE((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)), ...,
+                                LEXY_DECLVAL(_cb&&).finish()))
     {
         auto cb = _sink.sink();
         (cb(LEXY_FWD(args)), ...);
-- 
2.43.0


From 0908da14434badd2161a723e8560b50e32b5addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:37 +0000
Subject: [PATCH 35/43] fix: unicode case folding does not treat an invalid
 first code unit as end of input

---
 include/lexy/dsl/case_folding.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c144366..0950bf1 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -223,6 +223,15 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
                 ++_buffer_size;
                 _impl.bump();
             }
+
+            // If the error is right at the first code unit, it still needs to be passed on;
+            // an empty buffer would be EOF.
+            if (_buffer_size == 0 && _impl.peek() != encoding::eof())
+            {
+                _buffer[_buffer_size] = static_cast<typename encoding::char_type>(_impl.peek());
+                ++_buffer_size;
+                _impl.bump();
+            }
         }
     }
 
-- 
2.43.0


From 71036044197661d4c1c955c08b6eb7939e1b9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:53 +0000
Subject: [PATCH 36/43] fix: buffer_builder::grow() copies all of what has been
 read for wide characters

---
 include/lexy/_detail/buffer_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/buffer_builder.hpp b/include/lexy/_detail/buffer_builder.hpp
index f0f5b17..9fc10a2 100644
--- a/include/lexy/_detail/buffer_builder.hpp
+++ b/include/lexy/_detail/buffer_builder.hpp
@@ -91,7 +91,7 @@ public:
         // Allocate new memory.
         auto memory = static_cast<T*>(::operator new(new_cap * sizeof(T)));
         // Copy the read area into the new memory.
-        std::memcpy(memory, _data, _read_size);
+        std::memcpy(memory, _data, _read_size * sizeof(T));
 
         // Release the old memory, if there was any.
         if (_data != _stack_buffer)
-- 
2.43.0


From 28341bfbc125dfdadc219c7323ae57dacdec62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 37/43] fix: the shell does not take the end of the input for
 another line

---
 include/lexy_ext/shell.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 0e192c6..4708966 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -383,7 +383,7 @@ private:
             _buffer.commit(read);
 
             // Check whether we've read the entire line.
-            if (_buffer.write_data()[-1] == '\n')
+            if (read > 0 && _buffer.write_data()[-1] == '\n')
             {
                 LEXY_MOV(reader).done();
                 return true;
-- 
2.43.0


From e53ffa873e60a0df1ae72334be6e5c8e0dc07f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 38/43] fix: the shell's parser sees a continuation line
 without final newline

---
 include/lexy_ext/shell.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 4708966..851a4c2 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -232,10 +232,10 @@ public:
                 // We've reached the end of the buffer, but the user might be willing to type
                 // another line.
                 _shell->_prompt.continuation_prompt();
-                auto did_append = _shell->append_next_line();
-                if (!did_append)
+                if (!_shell->append_next_line())
                     _shell->_prompt.eof_prompt();
-                return !did_append;
+                // The final line might not be terminated by a newline.
+                return _idx == _shell->_buffer.read_size();
             }
         }
 
@@ -365,7 +365,7 @@ public:
     }
 
 private:
-    // Returns whether or not we've read anything.
+    // Returns whether or not we've read an entire line.
     bool append_next_line()
     {
         // Grwo buffer if necessary.
-- 
2.43.0


From e15cbf352eea25dc75bc55f5dfeba36335c543a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 39/43] fix: default_prompt reads lines that are longer than
 the buffer or contain null characters

---
 include/lexy_ext/shell.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 851a4c2..d1d7263 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -104,10 +104,21 @@ struct default_prompt
             LEXY_PRECONDITION(size > 1);
 
             auto memory = reinterpret_cast<char*>(buffer);
-            if (auto str = std::fgets(memory, int(size), stdin))
-                return std::strlen(str);
-            else
-                return 0;
+            // Note: fgets() reserves space for a null terminator,
+            // and doesn't tell us how much it has read if there is a null character in the line.
+            std::size_t read = 0;
+            while (read < size)
+            {
+                const auto c = std::fgetc(stdin);
+                if (c == EOF)
+                    // Either an error or EOF.
+                    break;
+
+                memory[read++] = static_cast<char>(c);
+                if (c == '\n')
+                    break;
+            }
+            return read;
         }
 
         void done() && {}
-- 
2.43.0


From c8e2e54ec2df483c16aecdf53070e7bb83566064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 40/43] fix: default_prompt writes messages that contain null
 characters

---
 include/lexy_ext/shell.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index d1d7263..a3920bf 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -134,7 +134,7 @@ struct default_prompt
 
         void operator()(const char_type* buffer, std::size_t size)
         {
-            std::fprintf(stdout, "%.*s", int(size), reinterpret_cast<const char*>(buffer));
+            std::fwrite(buffer, sizeof(char), size, stdout);
             if (size > 0)
                 _last_was_newline = buffer[size - 1] == '\n';
         }
-- 
2.43.0


From 4372b3db69226db971cb2d7cc6519d9078ad0f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:21 +0000
Subject: [PATCH 41/43] fix: a shell lexeme can be written

---
 include/lexy_ext/shell.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index a3920bf..b7578ae 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -342,9 +342,12 @@ public:
 
         writer& operator()(lexy::lexeme_for<input> lexeme)
         {
+            if (lexeme.empty())
+                return *this;
+
             // We know that the iterator is contiguous.
             auto data = &*lexeme.begin();
-            _writer(data, lexeme.size());
+            _writer(data, lexeme.end().index() - lexeme.begin().index());
             return *this;
         }
 
-- 
2.43.0


From abbbb4870dd3d42ebf60f669d48f133263f9715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 42/43] fix: writing colors advances every output iterator

---
 include/lexy/visualize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index 3904fa2..c6573ce 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -155,7 +155,7 @@ constexpr OutIt write_color(OutIt out, visualization_options opts)
         return out;
     };
     out = write_code(out, int(CodeHead));
-    ((*out++ = ';', write_code(out, int(CodeTail))), ...);
+    ((*out++ = ';', out = write_code(out, int(CodeTail))), ...);
 
     *out++ = 'm';
     return out;
-- 
2.43.0


From 11685720c4935fc4502ee55666ea42f48d4811d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 43/43] fix: a lexeme of a parse tree input is visualized with
 the given options

---
 include/lexy/visualize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index c6573ce..c3b58fa 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -482,7 +482,7 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
         // Visualize as an iterator range of characters.
         lexy::range_input<typename encoding::char_encoding, typename Reader::iterator>
             input(lexeme.begin(), lexeme.end());
-        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()));
+        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()), opts);
     }
     else
     {
-- 
2.43.0


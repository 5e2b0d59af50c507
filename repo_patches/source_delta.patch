From 9721339d791ca4eabbba4fe5999594c79f3b1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:48 +0000
Subject: [PATCH 01/13] fix: disconnecting by callable must end the connections
 it removes

signal::disconnect took the slots out of the list but left their connected
state set. A connection that was used afterwards removed whatever slot had
moved to the stale index, so a slot nobody disconnected was lost, and an
emission in progress still called the slots that had been disconnected.
---
 signals.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..fff43e7 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1809,10 +1809,13 @@ namespace sig
         {
             lock_type lock(m_SlotMutex);
             auto i = slot.index();
-            auto& slots = m_Slots.write();
+            const auto& current = m_Slots.read();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may have been removed from the list already (see erase). 
+            // In that case, its index refers to some other slot.
+            if (i < current.size() && current[i].get() == &slot)
             {
+                auto& slots = m_Slots.write();
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
                 slots.pop_back();
@@ -1835,10 +1838,14 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    // Don't count slots that are being disconnected by their connection.
+                    if (s.state().disconnect())
+                    {
+                        ++count;
+                    }
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-                    ++count;
                 }
                 else
                 {
-- 
2.43.0


From 49503e3d958f21f10eb37fa5df33536d9511a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:36 +0000
Subject: [PATCH 02/13] fix: disconnecting by callable must not run user code
 that can re-enter or fail half-way

The callables were destroyed with the slot mutex held, so a destructor that
used the signal dead-locked, and a comparison that threw left only some of
the equal slots removed.
---
 signals.hpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index fff43e7..0fe42d7 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1828,23 +1828,25 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            // Removed slots must outlive the lock since destroying a slot runs 
+            // user code which may access the signal again.
+            list_type removed;
+
             lock_type lock(m_SlotMutex);
-            auto& slots = m_Slots.write();
 
-            std::size_t count = 0;   // The number of slots that were removed.
+            // Comparing the slots may throw. Work on a copy so that the 
+            // list of slots is unchanged in that case.
+            cow_type updated(new list_type(m_Slots.read()));
+            auto& slots = updated.write();
+            removed.reserve(slots.size());
+
             std::size_t i = 0;       // Slot index
             while (i < slots.size())
             {
-                auto& s = *slots[i];
-                if (s == slot)
+                if (*slots[i] == slot)
                 {
-                    // Don't count slots that are being disconnected by their connection.
-                    if (s.state().disconnect())
-                    {
-                        ++count;
-                    }
                     std::swap(slots[i], slots.back());
-                    slots[i]->index() = i;
+                    removed.push_back(std::move(slots.back()));
                     slots.pop_back();
                 }
                 else
@@ -1852,6 +1854,23 @@ namespace sig
                     ++i;
                 }
             }
+
+            std::size_t count = 0;   // The number of slots that were removed.
+            for (auto& s : removed)
+            {
+                // Don't count slots that are being disconnected by their connection.
+                if (s->state().disconnect())
+                {
+                    ++count;
+                }
+            }
+
+            for (i = 0; i < slots.size(); ++i)
+            {
+                slots[i]->index() = i;
+            }
+            m_Slots = std::move(updated);
+
             return count;
         }
 
-- 
2.43.0


From bc769c5c5751cc97912b4a8f1c39ef64e861d098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:03 +0000
Subject: [PATCH 03/13] fix: slot equality must not depend on how the callable
 was passed

The implementation type of a slot depended on the value category and
constness of the callable and object it was made from, so two slots holding
equal callables compared unequal and signal::disconnect ended nothing when,
for example, a function was connected as an lvalue and disconnected as an
rvalue.
---
 signals.hpp | 50 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 0fe42d7..362d472 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -773,8 +773,12 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            slot_func(const fuction_type& func)
+                : m_Func{ func }
+            {}
+
+            slot_func(fuction_type&& func)
+                : m_Func{ std::move(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -810,8 +814,12 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            slot_func(const fuction_type& func)
+                : m_Func{ func }
+            {}
+
+            slot_func(fuction_type&& func)
+                : m_Func{ std::move(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -849,9 +857,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -892,9 +901,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -936,9 +946,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -997,9 +1008,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -1261,7 +1273,7 @@ namespace sig
         // Slot that takes a function object.
         template<typename Func>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
         {}
 
@@ -1269,14 +1281,14 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, detail::traits::decay_t<decltype(to_weak(std::forward<Ptr>(ptr)))>, Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From 02ccc5b1992436e6519dca021efc09ad8296e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:09 +0000
Subject: [PATCH 04/13] fix: taking ownership in a copy-on-write pointer can
 fail

Creating the shared state allocates. The constructor and assignment from a
plain pointer were declared noexcept, so running out of memory while the
list of slots was copied terminated the program instead of reporting
bad_alloc to the caller of connect or disconnect.
---
 signals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 362d472..7dc9e96 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,7 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +549,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0


From f0b23d8b02e9b39b10723bb898f25f288a814f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:19 +0000
Subject: [PATCH 05/13] fix: disconnecting must not terminate the program when
 memory runs out

connection::disconnect() is noexcept but removing the slot from a list that is in
use by an emission copies the list. If that allocation failed, std::terminate was called.
---
 signals.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 7dc9e96..dfbe090 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -23,6 +23,7 @@
 #include <functional>   // for std::reference_wrapper
 #include <memory>       // for std::unique_ptr
 #include <mutex>        // for std::mutex, and std::lock_guard
+#include <new>          // for std::bad_alloc
 #include <tuple>        // for std::tuple, and std::make_tuple
 #include <type_traits>  // for std::decay, and std::enable_if
 #include <utility>      // for std::declval.
@@ -1827,10 +1828,19 @@ namespace sig
             // In that case, its index refers to some other slot.
             if (i < current.size() && current[i].get() == &slot)
             {
-                auto& slots = m_Slots.write();
-                std::swap(slots[i], slots.back());
-                slots[i]->index() = i;
-                slots.pop_back();
+                try
+                {
+                    auto& slots = m_Slots.write();
+                    std::swap(slots[i], slots.back());
+                    slots[i]->index() = i;
+                    slots.pop_back();
+                }
+                catch (const std::bad_alloc&)
+                {
+                    // The list is in use by an emission and could not be copied. 
+                    // The slot stays in the list, but since it is disconnected 
+                    // it will not be invoked anymore.
+                }
             }
         }
 
-- 
2.43.0


From 971575eeb88ade802eaff5559ddacf8cefd0fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:32 +0000
Subject: [PATCH 06/13] fix: every slot of an emission must receive the
 arguments that were passed

By-value arguments were forwarded as rvalues to each slot in turn, so a slot that
took its argument by value (or rvalue reference) left a moved-from object for the
slots after it.
---
 signals.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index dfbe090..aed569f 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1090,6 +1090,29 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // Passes an argument of an emission on to a slot.
+        // All slots of an emission share the arguments so by-value arguments 
+        // are copied, otherwise a slot could move from (or modify) the argument 
+        // that is passed to the next slot. References are forwarded, and so are 
+        // arguments that can't be copied.
+        template<typename Arg, bool Copy = !std::is_reference<Arg>::value && std::is_copy_constructible<Arg>::value>
+        struct slot_arg
+        {
+            static Arg&& get(traits::remove_reference_t<Arg>& arg)
+            {
+                return static_cast<Arg&&>(arg);
+            }
+        };
+
+        template<typename Arg>
+        struct slot_arg<Arg, true>
+        {
+            static Arg get(const Arg& arg)
+            {
+                return arg;
+            }
+        };
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1152,7 +1175,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1216,7 +1239,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From bad5f2046ebd4c5a429d5e818d5034e817f71f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:42 +0000
Subject: [PATCH 07/13] fix: moving a signal must carry its connections along

The moved slots kept pointing at the source signal, so disconnecting them went to the
wrong (or a destroyed) signal. The slots the target had before were dropped without
being disconnected, the source was left without a list of slots, and the move
assignment operator did not return anything.
---
 signals.hpp | 47 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index aed569f..158ff4e 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1703,22 +1703,42 @@ namespace sig
         signal& operator=(const signal&) = delete;
 
         // Moveable.
-        signal(signal&& other) noexcept
-            : m_Blocked(other.m_Blocked.load())
+        // The slots of the other signal are moved to this signal.
+        // The other signal has no slots afterwards but it can still be used.
+        signal(signal&& other)
+            : m_Slots(new list_type())
+            , m_Blocked(other.m_Blocked.load())
         {
             lock_type lock(other.m_SlotMutex);
-            m_Slots = std::move(other.m_Slots);
+            std::swap(m_Slots, other.m_Slots);
+            take_slots();
         }
 
         // Move assignable.
-        signal& operator=(signal&& other) noexcept
+        // The slots that were connected to this signal are disconnected.
+        signal& operator=(signal&& other)
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // Destroying slots runs user code so the previous slots must 
+                // outlive the locks.
+                cow_type previous(new list_type());
+
+                lock_type lock1(m_SlotMutex, std::defer_lock);
+                lock_type lock2(other.m_SlotMutex, std::defer_lock);
+                std::lock(lock1, lock2);
+
+                std::swap(previous, other.m_Slots);
+                std::swap(previous, m_Slots);
+                for (const auto& s : previous.read())
+                {
+                    s->state().disconnect();
+                }
+                take_slots();
+                m_Blocked = other.m_Blocked.load();
+            }
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1840,6 +1860,15 @@ namespace sig
             slots.push_back(std::move(s));
         }
 
+        // Make this the signal that the slots are disconnected from.
+        void take_slots()
+        {
+            for (const auto& s : m_Slots.read())
+            {
+                s->m_pSignal = this;
+            }
+        }
+
         // Remove a slot at the given index.
         virtual void remove_slot(detail::slot_base& slot) override
         {
-- 
2.43.0


From 1c8a91583ff9e0c64a2d6331766837fd9936254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:08 +0000
Subject: [PATCH 08/13] fix: destroying a signal must disconnect its slots

Handles kept reporting connected after the signal was gone, disconnecting them while an
emission still held the slot used the destroyed signal, and a signal destroyed by one of
its own slots went on calling the remaining ones.
---
 signals.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 158ff4e..db8ae6a 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1695,7 +1695,16 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+
+        ~signal()
+        {
+            // Connections can outlive the signal and slots can still be in use 
+            // by an emission if the signal is destroyed by one of its own slots.
+            for (const auto& s : m_Slots.read())
+            {
+                s->state().disconnect();
+            }
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
-- 
2.43.0


From f6878b514f76e94638cb6dbcab58c64ca6351968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:24 +0000
Subject: [PATCH 09/13] fix: a blocker must not end another block

Destroying or reassigning a blocker unblocked the slot although another blocker was
still alive or the slot was blocked explicitly.
---
 signals.hpp | 60 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index db8ae6a..b84e6a6 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -681,7 +681,7 @@ namespace sig
             constexpr slot_state() noexcept
                 : m_Index(0)
                 , m_Connected(true)
-                , m_Blocked(false)
+                , m_Blocked(0)
             {}
 
             // Atomic variables are not CopyConstructible.
@@ -689,13 +689,13 @@ namespace sig
             slot_state(const slot_state& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
-                , m_Blocked(s.m_Blocked.load())
+                , m_Blocked(s.m_Blocked.load() & explicit_block)
             {}
 
             slot_state(slot_state&& s) noexcept
                 : m_Index(s.m_Index)
                 , m_Connected(s.m_Connected.load())
-                , m_Blocked(s.m_Blocked.load())
+                , m_Blocked(s.m_Blocked.load() & explicit_block)
             {}
 
             virtual ~slot_state() = default;
@@ -704,7 +704,7 @@ namespace sig
             {
                 m_Index = s.m_Index;
                 m_Connected = s.m_Connected.load();
-                m_Blocked = s.m_Blocked.load();
+                m_Blocked = (m_Blocked.load() & ~explicit_block) | (s.m_Blocked.load() & explicit_block);
 
                 return *this;
             }
@@ -713,7 +713,7 @@ namespace sig
             {
                 m_Index = s.m_Index;
                 m_Connected.store(s.m_Connected.load());
-                m_Blocked.store(s.m_Blocked.load());
+                m_Blocked = (m_Blocked.load() & ~explicit_block) | (s.m_Blocked.load() & explicit_block);
 
                 return *this;
             }
@@ -730,17 +730,28 @@ namespace sig
 
             bool blocked() const noexcept
             {
-                return m_Blocked;
+                return m_Blocked != 0;
             }
 
             void block() noexcept
             {
-                m_Blocked = true;
+                m_Blocked |= explicit_block;
             }
 
             void unblock() noexcept
             {
-                m_Blocked = false;
+                m_Blocked &= ~explicit_block;
+            }
+
+            // Blockers are counted and don't affect an explicit block.
+            void add_blocker() noexcept
+            {
+                m_Blocked += one_blocker;
+            }
+
+            void remove_blocker() noexcept
+            {
+                m_Blocked -= one_blocker;
             }
 
             std::size_t& index()
@@ -749,9 +760,15 @@ namespace sig
             }
 
         private:
+            // The first bit of m_Blocked is set if the slot is blocked explicitly, 
+            // the other bits are the number of blockers (see connection_blocker).
+            // Blockers refer to a single slot so they don't apply to copies.
+            static constexpr std::size_t explicit_block = 1;
+            static constexpr std::size_t one_blocker = 2;
+
             std::size_t m_Index;
             std::atomic_bool m_Connected;
-            std::atomic_bool m_Blocked;
+            std::atomic<std::size_t> m_Blocked;
         };
 
         // Base class for slot implementations.
@@ -1260,6 +1277,8 @@ namespace sig
         public:
             virtual void block() = 0;
             virtual void unblock() = 0;
+            virtual void add_blocker() = 0;
+            virtual void remove_blocker() = 0;
             virtual bool connected() const noexcept = 0;
             virtual bool blocked() const noexcept = 0;
             virtual bool disconnect() = 0;
@@ -1413,6 +1432,18 @@ namespace sig
                 m_pImpl->unblock();
         }
 
+        void add_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->add_blocker();
+        }
+
+        void remove_blocker() noexcept
+        {
+            if (m_pImpl)
+                m_pImpl->remove_blocker();
+        }
+
         // Invoke the slot.
         opt::optional<R> operator()(Args&&... args)
         {
@@ -1472,8 +1503,11 @@ namespace sig
         connection_blocker& operator=(const connection_blocker&) = delete;
         connection_blocker& operator=(connection_blocker&& c) noexcept
         {
-            release();
-            m_Slot = std::move(c.m_Slot);
+            if (this != &c)
+            {
+                release();
+                m_Slot = std::move(c.m_Slot);
+            }
             return *this;
         }
 
@@ -1490,7 +1524,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->block();
+                s->add_blocker();
             }
         }
 
@@ -1498,7 +1532,7 @@ namespace sig
         {
             if (auto s = m_Slot.lock())
             {
-                s->unblock();
+                s->remove_blocker();
             }
         }
 
-- 
2.43.0


From cf8a859018ca13ccaf239d02c83164a9f5f331e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:58 +0000
Subject: [PATCH 10/13] fix: synchronize with previous owners before writing a
 copy-on-write value

A writer that found itself the only owner modified the value without synchronizing
with the thread that read it and released its copy just before.
---
 signals.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index b84e6a6..b1241bd 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -653,6 +653,13 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // The count says nothing about when other owners accessed 
+                    // the value (std::shared_ptr::use_count is a relaxed load).
+                    // Synchronize with them since the value will be modified.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


From e681074e47a5107fceca1524a9184d82adf0526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:36 +0000
Subject: [PATCH 11/13] fix: slots must be copyable values

Copying a non-const slot wrapped it in a function slot, copying an empty slot
dereferenced a null pointer, copy assignment did not compile, and connecting an
empty slot crashed.
---
 signals.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index b1241bd..97fedb2 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1321,7 +1321,9 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        // Slots of the same type are copied (or moved) instead.
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_base_of<slot, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
@@ -1344,7 +1346,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1367,8 +1369,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
-                m_pSignal = other.m_pSignal;
+                *this = slot(other);
             }
             return *this;
         }
@@ -1794,6 +1795,8 @@ namespace sig
         // Connect a previously created slot
         connection connect(const slot_type& slot)
         {
+            if (!slot) return {};   // There is nothing to connect.
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From 4628bcabfcc16b545a7e6fcf2576ac42fdd7994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:17 +0000
Subject: [PATCH 12/13] fix: a failed emplacement must leave a scalar optional
 empty

As documented ("upon exception *this is always uninitialized"), and as for
other types: the old value was kept.
---
 optional.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optional.hpp b/optional.hpp
index 8a8a9f3..062bd44 100644
--- a/optional.hpp
+++ b/optional.hpp
@@ -642,6 +642,7 @@ namespace opt
             template<class... Args>
             void emplace_assign(Args&&... args)
             {
+                destroy();
                 construct(in_place, std::forward<Args>(args)...);
             }
 
-- 
2.43.0


From df99c193b391b517e7dedc691de4b2d68541343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:20 +0000
Subject: [PATCH 13/13] fix: moving a scoped connection onto itself must not
 disconnect it

---
 signals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 97fedb2..be2c317 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1669,6 +1669,8 @@ namespace sig
 
         scoped_connection& operator=(scoped_connection&& c) noexcept
         {
+            if (this == &c) return *this;
+
             this->disconnect();
             this->m_Slot = std::move(c.m_Slot);
             return *this;
-- 
2.43.0


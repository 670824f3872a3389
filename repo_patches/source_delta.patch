From 380030fb22802e3b45a3143609189e14b496570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:14 +0000
Subject: [PATCH 01/11] fix: pass by-value signal arguments intact to every
 slot

The arguments were forwarded out of the shared argument tuple, so the first slot
could move from them and later slots received moved-from values.
---
 signals.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..3b4467e 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,13 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // The type used to pass an argument from the signal to one of its slots.
+        // Arguments taken by value are copied for each slot, otherwise the first
+        // slot could move from the argument that the other slots still have to
+        // receive. References and move-only types are forwarded.
+        template<typename T>
+        using slot_arg_t = traits::conditional_t<std::is_reference<T>::value || !std::is_copy_constructible<T>::value, T&&, T>;
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1146,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(static_cast<slot_arg_t<Args>>(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1210,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(static_cast<slot_arg_t<Args>>(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From 6a9af557e244e638d5e40aec604bd9a6958766c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:14 +0000
Subject: [PATCH 02/11] fix: disconnecting by callable marks the slot as
 disconnected

A slot erased while an emission was in flight was still invoked, its connection
still reported connected, and connection::disconnect() on it removed whichever
slot had taken over its index.
---
 signals.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 3b4467e..ba70b6f 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1818,7 +1818,9 @@ namespace sig
             auto i = slot.index();
             auto& slots = m_Slots.write();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may already have been removed, in which case
+            // its index refers to a different slot.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
@@ -1842,6 +1844,7 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    s.state().disconnect();
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-- 
2.43.0


From 745fa140f1c0509a78a252f1fe455c3850d6c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 03/11] fix: copying a non-const slot uses the copy constructor

The converting constructor template was a better match for slot& and built a slot
that holds a slot that holds a slot ..., until the stack overflowed.
---
 signals.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index ba70b6f..ea93b1d 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1266,7 +1266,8 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_base_of<detail::slot_base, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
-- 
2.43.0


From 45ae1cb849b1307da2c7777ad59804547c8b617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 04/11] fix: copy construction and assignment of (empty) slots

Copying an empty slot dereferenced a null pointer; copy assignment and the
constructor from an implementation did not compile when instantiated.
---
 signals.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ea93b1d..321dca1 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1290,13 +1290,13 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
         // Explicit parameterized constructor.
         explicit slot(std::unique_ptr<impl> pImpl)
-            : m_pImpl{ pImpl }
+            : m_pImpl{ std::move(pImpl) }
             , m_pSignal{ nullptr }
         {}
 
@@ -1313,7 +1313,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
+                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                 m_pSignal = other.m_pSignal;
             }
             return *this;
-- 
2.43.0


From ac7500bebe25327542c8f52f3ed5252d0afa8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 05/11] fix: connecting an empty slot returns an inert
 connection

It dereferenced a null pointer.
---
 signals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 321dca1..97fafca 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1696,6 +1696,8 @@ namespace sig
         // Connect a previously created slot
         connection connect(const slot_type& slot)
         {
+            if (!slot) return connection();     // An empty slot has nothing to connect.
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From 26c214904fe2ebb0f2729ff412c9ed9354b804c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 06/11] fix: destroy slots disconnected by callable after
 unlocking

The function objects were destroyed with the mutex of the signal locked: a
function object whose destructor uses the signal (for example by way of a
scoped_connection) deadlocked.
---
 signals.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 97fafca..9aec0c5 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1837,6 +1837,7 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            list_type removed;       // The removed slots are destroyed after the mutex is unlocked.
             lock_type lock(m_SlotMutex);
             auto& slots = m_Slots.write();
 
@@ -1847,6 +1848,7 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    removed.push_back(slots[i]);
                     s.state().disconnect();
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
-- 
2.43.0


From cf5affc4a1d51f7b2f8e82c2d1d926776752948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:18 +0000
Subject: [PATCH 07/11] fix: moving a signal keeps its connections usable

The moved slots still referred to the old signal, so disconnecting them crashed or
used a dead object; the move assignment operator did not return a value; slots
replaced by a move assignment stayed "connected" and were destroyed with both
mutexes locked; and using a moved-from signal dereferenced a null pointer.
---
 signals.hpp | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 9aec0c5..1ed124b 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1680,17 +1680,27 @@ namespace sig
         {
             lock_type lock(other.m_SlotMutex);
             m_Slots = std::move(other.m_Slots);
+            adopt_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                cow_type old;   // The replaced slots are destroyed after the mutexes are unlocked.
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+                lock_type lock1(m_SlotMutex, std::defer_lock);
+                lock_type lock2(other.m_SlotMutex, std::defer_lock);
+                std::lock(lock1, lock2);
+
+                abandon_slots();
+                old = std::move(m_Slots);
+                m_Slots = std::move(other.m_Slots);
+                m_Blocked = other.m_Blocked.load();
+                adopt_slots();
+            }
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1795,7 +1805,8 @@ namespace sig
 
             // Get a read-only copy of the slots.
             const auto slots_copy = read_slots();
-            const auto& slots = slots_copy.read();
+            const list_type no_slots;   // A moved-from signal has no list of slots.
+            const auto& slots = slots_copy ? slots_copy.read() : no_slots;
 
             using iterator = detail::slot_iterator<R, list_iterator, Args...>;
             return Combiner()(iterator(slots.begin(), t), iterator(slots.end(), t));
@@ -1808,6 +1819,7 @@ namespace sig
         void add_slot(slot_ptr_type&& s)
         {
             lock_type lock(m_SlotMutex);
+            if (!m_Slots) m_Slots = new list_type();    // This signal was moved from.
             auto& slots = m_Slots.write();
 
             s->state().index() = slots.size();
@@ -1839,6 +1851,7 @@ namespace sig
         {
             list_type removed;       // The removed slots are destroyed after the mutex is unlocked.
             lock_type lock(m_SlotMutex);
+            if (!m_Slots) return 0;  // This signal was moved from.
             auto& slots = m_Slots.write();
 
             std::size_t count = 0;   // The number of slots that were removed.
@@ -1863,6 +1876,25 @@ namespace sig
             return count;
         }
 
+        // Make the slots refer to this signal after they have been moved
+        // from another signal.
+        void adopt_slots() noexcept
+        {
+            const cow_type& slots = m_Slots;
+            if (!slots) return;
+            for (const auto& s : slots.read())
+                s->m_pSignal = this;
+        }
+
+        // Disconnect the slots that are about to lose their signal.
+        void abandon_slots() noexcept
+        {
+            const cow_type& slots = m_Slots;
+            if (!slots) return;
+            for (const auto& s : slots.read())
+                s->state().disconnect();
+        }
+
         void clear()
         {
             lock_type lock(m_SlotMutex);
-- 
2.43.0


From 2641f8a79a1ca21cabfd6448d2befa11e0f09df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:18 +0000
Subject: [PATCH 08/11] fix: destroying a signal disconnects its slots

A slot that outlived the signal (because the signal was destroyed by one of its
own slots during an emission) still reported to be connected, and disconnecting it
accessed the destroyed signal.
---
 signals.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 1ed124b..1b16998 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1667,7 +1667,10 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            abandon_slots();
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
-- 
2.43.0


From 8e3cb565cac00b10eb784ad59ad6d346c1f23933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:47 +0000
Subject: [PATCH 09/11] fix: running out of memory while copying the list of
 slots throws instead of terminating

cow_ptr(T*) and cow_ptr::operator=(T*) allocate the control block of a
shared_ptr, but were declared noexcept.
---
 signals.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 1b16998..1a884e9 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,8 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            // May throw: the control block of the shared pointer is allocated.
+            explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +550,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0


From 0bfe83c9d5fae4bb9375bd5240fa0c2db9382bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:17 +0000
Subject: [PATCH 10/11] fix: slots of the same callable compare equal whatever
 value category it was given as

The implementation class of a slot was instantiated with the deduced
forwarding type, so that a callable (or bound pointer) connected as an
lvalue never matched the same one given as an rvalue, and disconnecting
it by value removed nothing.
---
 signals.hpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 1a884e9..9bba1d7 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -774,8 +774,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -811,8 +812,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -850,9 +852,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -893,9 +896,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -937,9 +941,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
+            template<typename F>
+            slot_pmf_tracked(F&& func, WeakPtr&& ptr)
                 : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -998,9 +1003,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
+            template<typename F>
+            slot_pmf_tracked(F&& func, WeakPtr&& ptr)
                 : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -1270,7 +1276,7 @@ namespace sig
         template<typename Func,
             typename = detail::traits::enable_if_t<!std::is_base_of<detail::slot_base, detail::traits::remove_cvref_t<Func>>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
         {}
 
@@ -1278,14 +1284,14 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From 071b4b2136e2dc4f611f7f53d2958144e9b56c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:07 +0000
Subject: [PATCH 11/11] fix: modifying a copy-on-write list in place
 synchronizes with finished readers

---
 signals.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 9bba1d7..e6dd732 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -653,6 +653,13 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // The object is modified in place. use_count() does not
+                    // synchronize with the (other) threads that released their
+                    // copies, but their reads must happen before that.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0


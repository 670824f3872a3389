"""More behaviour-preserving rewrites (see refactors.py): loops, helpers and statement order all over the two headers."""
S, O = 'signals.hpp', 'optional.hpp'
CH = '''            if (auto s = m_Slot.lock())
            {
                s->block();
            }
'''
BLK = '''            connection_blocker(connection_blocker&& c) noexcept'''
R = {
    'comb_if_init': [(S, '''                result_type temp = *first;
                if (temp)   // Skip disengaged results.
                    result = temp;
                ++first;''', '''                if (auto temp = *first++)
                    result = std::move(temp);''')],
    'comb_conditional': [(S, '''                result_type temp = *first;
                if (temp)   // Skip disengaged results.
                    result = temp;
                ++first;''', '''                result_type temp = *first;
                ++first;
                result = temp ? temp : result;''')],
    'comb_swap': [(S, '''                result_type temp = *first;
                if (temp)   // Skip disengaged results.
                    result = temp;
                ++first;''', '''                result_type temp = *first;
                if (temp.has_value())
                {
                    using std::swap;
                    swap(result, temp);
                }
                ++first;''')],
    'comb_foreach': [(S, '''            result_type result;
            while (first != last)
            {
                result_type temp = *first;
                if (temp)   // Skip disengaged results.
                    result = temp;
                ++first;
            }

            return result;''', '''            auto keep = [](result_type& r, result_type t) { if (t) r = t; };
            result_type result;
            for (; !(first == last); first++)
                keep(result, *first);
            return result;''')],
    'emit_lambda': [(S, '''            const auto slots_copy = read_slots();
            const list_type no_slots;   // A moved-from signal has no list of slots.
            const auto& slots = slots_copy ? slots_copy.read() : no_slots;
''', '''            const auto slots_copy = [this] { return read_slots(); }();
            const list_type no_slots;
            const list_type* p = &no_slots;
            if (slots_copy)
                p = &*slots_copy;
            const auto& slots = *p;
''')],
    'emit_early': [(S, '''            const list_type no_slots;   // A moved-from signal has no list of slots.
            const auto& slots = slots_copy ? slots_copy.read() : no_slots;

            using iterator = detail::slot_iterator<R, list_iterator, Args...>;
''', '''            using iterator = detail::slot_iterator<R, list_iterator, Args...>;
            if (!slots_copy)
            {
                const list_type none;
                return Combiner()(iterator(none.cbegin(), t), iterator(none.cend(), t));
            }
            const list_type& slots = *slots_copy;
''')],
    'emit_snapshot_first': [(S, '''            auto t = std::tuple<Args...>(std::forward<Args>(args)...);

            // Get a read-only copy of the slots.
            const auto slots_copy = read_slots();
''', '''            const auto slots_copy = read_slots();
            std::tuple<Args...> t{ std::forward<Args>(args)... };
''')],
    'emit_vector_copy': [(S, '''            const list_type no_slots;   // A moved-from signal has no list of slots.
            const auto& slots = slots_copy ? slots_copy.read() : no_slots;
''', '''            list_type slots;
            if (slots_copy) slots = slots_copy.read();
''')],
    'eq_early': [(S, '''            if (!s1 || !s2)
            {
                return !s1 && !s2;
            }
''', '''            if (!s1) return !s2;
            if (!s2) return false;
''')],
    'slot_bool': [(S, '            return m_pImpl != nullptr;', '            return static_cast<bool>(m_pImpl);')],
    'slot_nested': [(S, '''            return m_pImpl && m_pImpl->connected();''', '''            if (!m_pImpl) return false;
            const detail::slot_state& st = *m_pImpl;
            return st.connected();'''),
        (S, '''            return m_pImpl && m_pImpl->blocked();''', '''            if (const impl* p = m_pImpl.get())
                return p->blocked();
            return false;''')],
    'slot_call_local': [(S, '''            if (!blocked() && connected())
            {
                return (*m_pImpl)(std::forward<Args>(args)...);
            }

            return {};''', '''            impl* const p = m_pImpl.get();
            if (p == nullptr || !p->connected() || p->blocked())
                return opt::optional<R>();
            return p->operator()(std::forward<Args>(args)...);''')],
    'slot_disc_order': [(S, '''            if (m_pImpl && m_pSignal && m_pImpl->disconnect() )
            {
                m_pSignal->remove_slot(*this);
                return true;
            }

            return false;''', '''            detail::signal_base* const owner = m_pSignal;
            if (!owner || !m_pImpl)
                return false;
            const bool was = m_pImpl->disconnect();
            if (was)
                owner->remove_slot(*this);
            return was;''')],
    'slot_move_exchange': [(S, '''            m_pImpl = std::move(other.m_pImpl);
            m_pSignal = other.m_pSignal;
            other.m_pSignal = nullptr;

            return *this;''', '''            std::unique_ptr<impl> p = std::move(other.m_pImpl);
            m_pSignal = other.m_pSignal;
            other.m_pSignal = nullptr;
            m_pImpl = std::move(p);
            return *this;''')],
    'blocker_helper': [(S, '''            if (auto s = m_Slot.lock())
            {
                s->block();
            }
        }

        void release() noexcept
        {
            if (auto s = m_Slot.lock())
            {
                s->unblock();
            }
        }
''', '''            set(true);
        }

        void set(bool on) noexcept
        {
            const auto s = m_Slot.lock();
            if (!s) return;
            if (on) s->block(); else s->unblock();
        }

        void release() noexcept
        {
            set(false);
        }
''')],
    'conn_helper': [(S, '''            const auto s = m_Slot.lock();
            return s && s->connected();''', '''            if (m_Slot.expired()) return false;
            auto s = m_Slot.lock();
            return s != nullptr ? s->connected() : false;'''),
        (S, '''            auto s = m_Slot.lock();
            return s && s->disconnect();''', '''            bool done = false;
            if (auto s = m_Slot.lock())
                done = s->disconnect();
            return done;''')],
    'conn_valid': [(S, '            return !m_Slot.expired();', '            return m_Slot.lock() != nullptr;')],
    'scoped_release': [(S, '''            return connection(std::move(this->m_Slot));''', '''            slot_type s;
            s.swap(this->m_Slot);
            return connection(std::move(s));''')],
    'scoped_move_ctor': [(S, '''            : base(std::move(s.m_Slot))
        {}

        scoped_connection& operator=(const''', '''            : base()
        {
            this->m_Slot.swap(s.m_Slot);
        }

        scoped_connection& operator=(const''')],
    'adopt_for': [(S, '''            for (const auto& s : slots.read())
                s->m_pSignal = this;''', '''            const list_type& l = *slots;
            for (std::size_t i = 0; i != l.size(); ++i)
                l[i]->m_pSignal = this;''')],
    'abandon_iter': [(S, '''            for (const auto& s : slots.read())
                s->state().disconnect();''', '''            const list_type& l = slots.read();
            for (auto it = l.rbegin(); it != l.rend(); ++it)
                (*it)->state().disconnect();''')],
    'abandon_foreach': [(S, '''            for (const auto& s : slots.read())
                s->state().disconnect();''', '''            std::for_each(slots->begin(), slots->end(), [](const slot_ptr_type& s) { s->state().disconnect(); });'''), (S, '#include <atomic> ', '#include <algorithm>\n#include <atomic> ')],
    'erase_size': [(S, '''            std::size_t count = 0;   // The number of slots that were removed.
            std::size_t i = 0;       // Slot index''', '''            std::size_t i = 0;       // Slot index'''), (S, '''                    ++count;
''', ''), (S, '''            return count;
        }

        // Make the slots''', '''            return removed.size();
        }

        // Make the slots''')],
    'erase_victim': [(S, '''                auto& s = *slots[i];
                if (s == slot)
                {
                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;
                }
                else
                {
                    ++i;
                }''', '''                if (*slots[i] != slot)
                {
                    ++i;
                    continue;
                }
                removed.emplace_back(slots[i]);
                removed.back()->state().disconnect();
                if (i + 1 < slots.size())
                {
                    slots[i] = std::move(slots.back());
                    slots[i]->index() = i;
                }
                slots.pop_back();
                ++count;''')],
    'erase_helper': [(S, '''                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;''', '''                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    drop(slots, i);
                    ++count;'''), (S, '''                std::swap(slots[i], slots.back());
                slots[i]->index() = i;
                slots.pop_back();
            }
        }
''', '''                drop(slots, i);
            }
        }

        static void drop(list_type& slots, std::size_t i)
        {
            using std::swap;
            swap(slots.at(i), slots.at(slots.size() - 1));
            slots.at(i)->index() = i;
            slots.resize(slots.size() - 1);
        }
''')],
    'erase_reserve': [(S, '''            auto& slots = m_Slots.write();

            std::size_t count = 0;   // The''', '''            auto& slots = m_Slots.write();
            removed.reserve(slots.size());

            std::size_t count = 0;   // The''')],
    'erase_partition': [(S, '''            while (i < slots.size())
            {
                auto& s = *slots[i];
                if (s == slot)
                {
                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;
                }
                else
                {
                    ++i;
                }
            }
            return count;''', '''            std::vector<bool> match;
            for (const auto& p : slots) match.push_back(*p == slot);
            list_type kept;
            for (; i < slots.size(); ++i)
                (match[i] ? removed : kept).push_back(slots[i]);
            count = removed.size();
            slots.swap(kept);
            for (i = 0; i < slots.size(); ++i) slots[i]->index() = i;
            for (auto& p : removed) p->state().disconnect();
            lock.unlock();
            return count;''')],
    'remove_guard': [(S, '''            if (i < slots.size() && slots[i].get() == &slot)
            {
                std::swap(slots[i], slots.back());
                slots[i]->index() = i;
                slots.pop_back();
            }''', '''            if (i >= slots.size()) return;
            detail::slot_base* const there = slots[i].get();
            if (there != &slot) return;
            const auto last = slots.size() - 1;
            if (i != last)
            {
                slots[i].swap(slots[last]);
                slots[i]->index() = i;
            }
            slots.pop_back();''')],
    'remove_scan': [(S, '''            auto i = slot.index();
            auto& slots = m_Slots.write();
''', '''            auto& slots = m_Slots.write();
            std::size_t i = 0;
            while (i < slots.size() && slots[i].get() != &slot)
                ++i;
''')],
    'remove_read_first': [(S, '''            auto& slots = m_Slots.write();

            // The slot may already have been removed, in which case
            // its index refers to a different slot.
            if (i < slots.size() && slots[i].get() == &slot)
            {
''', '''            const cow_type& view = m_Slots;
            if (i < view->size() && view->at(i).get() == &slot)
            {
                auto& slots = *m_Slots;
''')],
    'detach_early': [(S, '''                if (m_Ptr && m_Ptr.use_count() > 1)
                {
                    // Detach from the shared pointer
                    // creating a new instance of the stored object.
                    *this = cow_ptr(new T(*m_Ptr));
                }
                else
                {''', '''                if (m_Ptr && m_Ptr.use_count() != 1)
                {
                    pointer_type fresh = std::make_shared<T>(*m_Ptr);
                    m_Ptr.swap(fresh);
                    return;
                }
                {''')],
    'cow_assign_direct': [(S, '''                if (this != &other)
                {
                    *this = cow_ptr(other);
                }

                return *this;''', '''                m_Ptr = other.m_Ptr;
                return *this;''')],
    'cow_ops_chain': [(S, '''            T* operator->()
            {
                detach();
                return m_Ptr.get();
            }''', '''            T* operator->()
            {
                return std::addressof(operator*());
            }'''), (S, '''            T* data()
            {
                detach();
                return m_Ptr.get();
            }''', '''            T* data()
            {
                return operator->();
            }''')],
    'state_delegate': [(S, '''            slot_state(slot_state&& s) noexcept
                : m_Index(s.m_Index)
                , m_Connected(s.m_Connected.load())
                , m_Blocked(s.m_Blocked.load())
            {}''', '''            slot_state(slot_state&& s) noexcept
                : slot_state(static_cast<const slot_state&>(s))
            {}'''), (S, '''                m_Index = s.m_Index;
                m_Connected.store(s.m_Connected.load());
                m_Blocked.store(s.m_Blocked.load());

                return *this;''', '''                return *this = static_cast<const slot_state&>(s);''')],
    'state_acqrel': [(S, 'return m_Connected.exchange(false);', 'bool expected = true;\n                return m_Connected.compare_exchange_strong(expected, false, std::memory_order_acq_rel, std::memory_order_acquire);'), (S, 'return m_Blocked;', 'return m_Blocked.load(std::memory_order_acquire);'),
        (S, 'm_Blocked = true;', 'm_Blocked.store(true, std::memory_order_release);'), (S, 'm_Blocked = false;', 'm_Blocked.store(false, std::memory_order_release);')],
    'tracked_if': [(S, '''                auto sp = m_Ptr.lock();
                if (!sp)
                {
                    this->disconnect();
                }

                if (this->connected())
                {
                    invoke_helper<function_type>::call(m_Func, sp, std::forward<Args>(args)...);
                }

                return {};''', '''                if (const auto keep = m_Ptr.lock())
                {
                    if (slot_state::connected())
                        invoke_helper<function_type>::call(m_Func, keep, std::forward<Args>(args)...);
                }
                else
                {
                    slot_state::disconnect();
                }
                return opt::nullopt;''')],
    'tracked_eq_nested': [(S, '''                if (auto spmft = dynamic_cast<const slot_pmf_tracked*>(s))
                {
                    return try_equals<pointer_type>::equals(m_Ptr, spmft->m_Ptr) &&
                        try_equals<function_type>::equals(m_Func, spmft->m_Func);
                }

                return false;''', '''                const auto* o = dynamic_cast<const slot_pmf_tracked*>(s);
                if (o == nullptr)
                    return false;
                if (!try_equals<pointer_type>::equals(m_Ptr, o->m_Ptr))
                    return false;
                return try_equals<function_type>::equals(m_Func, o->m_Func);''', 2)],
    'func_typeid': [(S, '''                if (auto sfunc = dynamic_cast<const slot_func*>(s))
                {
                    return try_equals<fuction_type>::equals(m_Func, sfunc->m_Func);
                }

                return false;''', '''                if (s == nullptr || typeid(*s) != typeid(*this))
                    return false;
                return try_equals<fuction_type>::equals(m_Func, static_cast<const slot_func*>(s)->m_Func);''', 2), (S, '#include <atomic> ', '#include <typeinfo>\n#include <atomic> ')],
    'func_void_stmt': [(S, '''                return (invoke_helper<fuction_type>::call(m_Func, std::forward<Args>(args)...), opt::nullopt);''', '''                static_cast<void>(invoke_helper<fuction_type>::call(m_Func, std::forward<Args>(args)...));
                return opt::optional<void>();''')],
    'pmf_local': [(S, '''                return invoke_helper<function_type>::call(m_Func, m_Ptr, std::forward<Args>(args)...);
            }

        private:
            pointer_type m_Ptr;
            function_type m_Func;
        };

        // Slot implementation for pointer to member function and
        // pointer to member data.
        // Specialized''', '''                opt::optional<R> r = invoke_helper<function_type>::call(m_Func, m_Ptr, std::forward<Args>(args)...);
                return r;
            }

        private:
            pointer_type m_Ptr;
            function_type m_Func;
        };

        // Slot implementation for pointer to member function and
        // pointer to member data.
        // Specialized''')],
    'add_ref': [(S, '''            s->state().index() = slots.size();
            slots.push_back(std::move(s));''', '''            slots.push_back(s);
            s->state().index() = slots.size() - 1;
            s.reset();''')],
    'add_insert': [(S, '''            s->state().index() = slots.size();
            slots.push_back(std::move(s));''', '''            const auto at = slots.insert(slots.end(), std::move(s));
            (*at)->state().index() = static_cast<std::size_t>(at - slots.begin());''')],
    'add_reserve': [(S, '''            s->state().index() = slots.size();
            slots.push_back(std::move(s));''', '''            if (slots.size() == slots.capacity())
                slots.reserve(slots.empty() ? 4 : 2 * slots.size());
            s->state().index() = slots.size();
            slots.push_back(std::move(s));''')],
    'move_take': [(S, '''                abandon_slots();
                old = std::move(m_Slots);
                m_Slots = std::move(other.m_Slots);
                m_Blocked = other.m_Blocked.load();
                adopt_slots();
            }
            return *this;
        }
''', '''                old = replace_slots(other);
            }
            return *this;
        }

        cow_type replace_slots(signal& other) noexcept
        {
            m_Blocked.store(other.m_Blocked.load());
            abandon_slots();
            cow_type mine = std::move(m_Slots);
            m_Slots = std::move(other.m_Slots);
            adopt_slots();
            return mine;
        }
''')],
    'move_early': [(S, '''            if (this != &other)
            {
                cow_type old;''', '''            if (this == &other)
                return *this;
            {
                cow_type old;''')],
    'ctor_inits': [(S, '''            : m_Blocked(false)
            , m_Slots(new list_type())
        {}''', '''            : m_Slots(detail::make_cow<list_type>())
            , m_Blocked(false)
        {}''')],
    'dtor_locked': [(S, '''        {
            abandon_slots();
        }''', '''        {
            lock_type lock(m_SlotMutex);
            abandon_slots();
        }''')],
    'read_manual': [(S, '''            lock_type lock(m_SlotMutex);
            return m_Slots;''', '''            lock_type lock(m_SlotMutex);
            cow_type copy(m_Slots);
            lock.unlock();
            return copy;''')],
    'connect_move': [(S, '''            connection c(s);
            add_slot(std::move(s));
            return c;''', '''            slot_wptr w(s);
            add_slot(std::move(s));
            return connection(std::move(w));''', 3)],
    'connect_default_combiner': [(S, '''            return Combiner()(iterator(slots.begin(), t), iterator(slots.end(), t));''', '''            const iterator first(slots.begin(), t), last(slots.end(), t);
            Combiner combine{};
            return combine(first, last);''')],
    'opt_swap_members': [(O, '''            // allow for Koenig lookup
            std::swap(*this, rhs);''', '''            this_type tmp(std::move(*this));
            *this = std::move(rhs);
            rhs = std::move(tmp);''')],
    'opt_base_assign_flat': [(O, '''                if (is_initialized())
                {
                    if (rhs.is_initialized())
                        assign_value(std::move(rhs.get_impl()));
                    else
                        destroy();
                }
                else
                {
                    if (rhs.is_initialized())
                        construct(std::move(rhs.get_impl()));
                }''', '''                if (!rhs.m_initialized)
                    destroy();
                else if (m_initialized)
                    assign_value(std::move(rhs.get_impl()));
                else
                    construct(std::move(rhs.get_impl()));''')],
    'opt_destroy_flag_first': [(O, '''                get_impl().T::~T();
                m_initialized = false;''', '''                pointer_type p = get_ptr_impl();
                m_initialized = false;
                p->~T();''')],
    'opt_construct_share': [(O, '''                ::new(&m_storage) value_type(std::move(val));
                m_initialized = true;''', '''                construct(in_place, std::move(val));''')],
    'opt_value_shared': [(O, '''        reference_type value()&
        {
            if (this->is_initialized())
                return this->get();
            else
                throw bad_optional_access("Attempted to retrieve the value of a disengaged optional.");
        }''', '''        reference_type value()&
        {
            if (!has_value())
                fail();
            return this->get_impl();
        }

        static void fail()
        {
            throw bad_optional_access("Attempted to retrieve the value of a disengaged optional.");
        }''')],
    'opt_cmp_if': [(O, '''        return bool(x) && bool(y) ? *x == *y : bool(x) == bool(y);''', '''        return !x ? !y : (y ? *x == *y : false);'''), (O, '''        return (!y) ? false : (!x) ? true : *x < *y;''', '''        return y ? (x ? *x < *y : true) : false;''')],
    'opt_ref_ternary': [(O, '''            return ref ? *ref : std::forward<V>(v);''', '''            return has_value() ? **this : std::forward<V>(v);''')],
    'opt_tc_assign': [(O, '''                if (rhs.is_initialized())
                    m_storage = rhs.get();

                m_initialized = rhs.is_initialized();''', '''                m_initialized = rhs.is_initialized();
                if (m_initialized)
                    m_storage = rhs.get();''')],
    'opt_getptr': [(O, '''                return m_initialized ? get_ptr_impl() : nullptr;''', '''                if (!m_initialized)
                    return nullptr;
                return get_ptr_impl();''', 4)],
    'storage_deque': [(S, 'using list_type = std::vector<slot_ptr_type>;', 'using list_type = std::deque<slot_ptr_type>;'), (S, '#include <atomic> ', '#include <deque>\n#include <atomic> ')],
    'storage_list': [(S, 'using list_type = std::vector<slot_ptr_type>;', 'using list_type = std::list<slot_ptr_type>;'), (S, '#include <atomic> ', '#include <list>\n#include <algorithm>\n#include <atomic> '),
        (S, '''            // The slot may already have been removed, in which case
            // its index refers to a different slot.
            if (i < slots.size() && slots[i].get() == &slot)
            {
                std::swap(slots[i], slots.back());
                slots[i]->index() = i;
                slots.pop_back();
            }''', '''            (void)i;
            for (auto it = slots.begin(); it != slots.end(); ++it)
                if (it->get() == &slot)
                {
                    slots.erase(it);
                    break;
                }'''),
        (S, '''            std::size_t i = 0;       // Slot index
            while (i < slots.size())
            {
                auto& s = *slots[i];
                if (s == slot)
                {
                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;
                }
                else
                {
                    ++i;
                }
            }''', '''            for (auto it = slots.begin(); it != slots.end(); )
            {
                if (**it == slot)
                {
                    (*it)->state().disconnect();
                    auto next = std::next(it);
                    removed.splice(removed.end(), slots, it);
                    it = next;
                    ++count;
                }
                else
                {
                    ++it;
                }
            }''')],
    'atomic_list': [(S, '''            lock_type lock(m_SlotMutex);
            return m_Slots;
        }

        mutable''', '''            return m_Slots.snapshot();
        }

        mutable'''), (S, '''            // Get read-only reference to internal value.
            const T& read() const''', '''            cow_ptr snapshot() const
            {
                cow_ptr c;
                c.m_Ptr = std::atomic_load(&m_Ptr);
                return c;
            }

            void publish(pointer_type p)
            {
                std::atomic_exchange(&m_Ptr, std::move(p));
            }

            // Get read-only reference to internal value.
            const T& read() const'''),
        (S, '''            if (!m_Slots) m_Slots = new list_type();    // This signal was moved from.
            auto& slots = m_Slots.write();

            s->state().index() = slots.size();
            slots.push_back(std::move(s));''', '''            const cow_type old = m_Slots.snapshot();
            auto fresh = old ? std::make_shared<list_type>(*old) : std::make_shared<list_type>();
            s->state().index() = fresh->size();
            fresh->push_back(std::move(s));
            m_Slots.publish(std::move(fresh));'''),
        (S, '''            auto& slots = m_Slots.write();

            // The slot''', '''            const cow_type old = m_Slots.snapshot();
            auto fresh = std::make_shared<list_type>(*old);
            auto& slots = *fresh;

            // The slot'''),
        (S, '''                slots[i]->index() = i;
                slots.pop_back();
            }
        }
''', '''                slots[i]->index() = i;
                slots.pop_back();
                m_Slots.publish(std::move(fresh));
            }
        }
'''),
        (S, '''            auto& slots = m_Slots.write();

            std::size_t count = 0;   // The number of slots that were removed.
            std::size_t i = 0;       // Slot index
            while (i < slots.size())
            {
                auto& s = *slots[i];
                if (s == slot)
                {
                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;
                }
                else
                {
                    ++i;
                }
            }
            return count;''', '''            const cow_type old = m_Slots.snapshot();
            auto fresh = std::make_shared<list_type>();
            for (const auto& p : *old)
                (*p == slot ? removed : *fresh).push_back(p);
            for (std::size_t i = 0; i < fresh->size(); ++i)
                (*fresh)[i]->index() = i;
            for (const auto& p : removed)
                p->state().disconnect();
            m_Slots.publish(std::move(fresh));
            return removed.size();''')],
}

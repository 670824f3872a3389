#!/usr/bin/env python3
"""refactors.py [names]: behaviour-preserving rewrites of the library on which every check must stay quiet (development aid: each is
applied to a scratch copy and analysed with tools/all.py --all)."""
import sys, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
import seedlib
S, O = 'signals.hpp', 'optional.hpp'
REMOVE = '''            if (i < slots.size() && slots[i].get() == &slot)
            {
                std::swap(slots[i], slots.back());
                slots[i]->index() = i;
                slots.pop_back();
            }
'''
ERASE = '''            std::size_t count = 0;   // The number of slots that were removed.
            std::size_t i = 0;       // Slot index
            while (i < slots.size())
            {
                auto& s = *slots[i];
                if (s == slot)
                {
                    removed.push_back(slots[i]);
                    s.state().disconnect();
                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;
                }
                else
                {
                    ++i;
                }
            }
            return count;
'''
COMB = '''            result_type result;
            while (first != last)
            {
                result_type temp = *first;
                if (temp)   // Skip disengaged results.
                    result = temp;
                ++first;
            }

            return result;
'''
ADD = '''            lock_type lock(m_SlotMutex);
            if (!m_Slots) m_Slots = new list_type();    // This signal was moved from.
            auto& slots = m_Slots.write();

            s->state().index() = slots.size();
            slots.push_back(std::move(s));
'''
MOVE = '''                lock_type lock1(m_SlotMutex, std::defer_lock);
                lock_type lock2(other.m_SlotMutex, std::defer_lock);
                std::lock(lock1, lock2);
'''
R = {
    'remove_helper': [(S, REMOVE, '''            if (i < slots.size() && slots[i].get() == &slot)
                take_out(slots, i);
'''), (S, '''        // Remove a slot at the given index.
''', '''        static void take_out(list_type& slots, std::size_t i)
        {
            std::swap(slots[i], slots.back());
            slots[i]->index() = i;
            slots.pop_back();
        }

        // Remove a slot at the given index.
'''), (S, '''                    std::swap(slots[i], slots.back());
                    slots[i]->index() = i;
                    slots.pop_back();
                    ++count;
''', '''                    take_out(slots, i);
                    ++count;
''')],
    'remove_early_return': [(S, REMOVE, '''            if (i >= slots.size())
                return;
            if (slots[i].get() != std::addressof(slot))
                return;
            const std::size_t last = slots.size() - 1;
            if (i != last)
            {
                slots[i].swap(slots[last]);
                slots[i]->index() = i;
            }
            slots.pop_back();
''')],
    'remove_move_last': [(S, REMOVE, '''            if (i < slots.size() && &slot == slots.at(i).get())
            {
                slot_ptr_type gone = std::move(slots[i]);
                if (i + 1 != slots.size())
                {
                    slots[i] = std::move(slots.back());
                    slots[i]->index() = i;
                }
                slots.erase(slots.end() - 1);
            }
''')],
    'remove_iter_swap': [(S, REMOVE, '''            if (i < slots.size() && slots[i].get() == &slot)
            {
                auto it = slots.begin() + static_cast<std::ptrdiff_t>(i);
                std::iter_swap(it, std::prev(slots.end()));
                (*it)->index() = i;
                slots.pop_back();
            }
'''), (S, '#include <atomic> ', '#include <algorithm>\n#include <iterator>\n#include <atomic> ')],
    'remove_keep_order': [(S, REMOVE, '''            if (i < slots.size() && slots[i].get() == &slot)
            {
                slots.erase(slots.begin() + static_cast<std::ptrdiff_t>(i));
                for (std::size_t k = i; k < slots.size(); ++k)
                    slots[k]->index() = k;
            }
''')],
    'remove_find_if': [(S, REMOVE, '''            auto it = std::find_if(slots.begin(), slots.end(), [&slot](const slot_ptr_type& p) { return p.get() == &slot; });
            if (it != slots.end())
            {
                i = static_cast<std::size_t>(it - slots.begin());
                std::swap(slots[i], slots.back());
                slots[i]->index() = i;
                slots.pop_back();
            }
'''), (S, '#include <atomic> ', '#include <algorithm>\n#include <atomic> ')],
    'erase_for': [(S, ERASE, '''            for (std::size_t i = 0; i != slots.size();)
            {
                slot_ptr_type& p = slots[i];
                if (!(*p == slot))
                {
                    i += 1;
                    continue;
                }
                removed.push_back(p);
                p->state().disconnect();
                p.swap(slots.back());
                p->index() = i;
                slots.pop_back();
            }
            return removed.size();
''')],
    'erase_backwards': [(S, ERASE, '''            for (std::size_t i = slots.size(); i-- > 0;)
            {
                if (*slots[i] != slot) continue;
                removed.push_back(slots[i]);
                slots[i]->state().disconnect();
                std::swap(slots[i], slots.back());
                slots[i]->index() = i;
                slots.pop_back();
            }
            return removed.size();
''')],
    'erase_compact': [(S, ERASE, '''            list_type kept;
            kept.reserve(slots.size());
            for (const auto& p : slots)
            {
                if (*p == slot) removed.push_back(p);
                else kept.push_back(p);
            }
            for (const auto& p : removed)
                p->state().disconnect();
            for (std::size_t k = 0; k < kept.size(); ++k)
                kept[k]->index() = k;
            slots.swap(kept);
            return removed.size();
''')],
    'comb_for': [(S, COMB, '''            result_type result;
            for (; first != last; ++first)
            {
                if (result_type temp = *first)
                    result = std::move(temp);
            }
            return result;
''')],
    'comb_recursive_helper': [(S, COMB, '''            result_type result;
            for (;;)
            {
                if (!(first != last))
                    break;
                take(result, *first);
                ++first;
            }
            return result;
        }

    private:
        static void take(result_type& result, const result_type& temp)
        {
            if (temp)
                result = temp;
''')],
    'comb_eq': [(S, COMB, '''            result_type result;
            do
            {
                if (first == last) return result;
                result_type temp = *first++;
                if (temp.has_value()) result = temp;
            } while (true);
''')],
    'add_emplace': [(S, ADD, '''            std::lock_guard<mutex_type> guard(m_SlotMutex);
            if (!m_Slots)
            {
                m_Slots = new list_type();
            }
            list_type* slots = m_Slots.data();
            const auto n = slots->size();
            s->index() = n;
            slots->emplace_back(std::move(s));
''')],
    'add_copy_first': [(S, ADD, '''            lock_type lock(m_SlotMutex);
            if (!m_Slots) m_Slots = new list_type();    // This signal was moved from.
            list_type& slots = *m_Slots;
            slots.push_back(s);
            slots.back()->index() = slots.size() - 1;
            lock.unlock();
''')],
    'scoped_lock': [(S, MOVE, '''                std::scoped_lock<mutex_type, mutex_type> both(m_SlotMutex, other.m_SlotMutex);
''')],
    'lock_ordered': [(S, MOVE, '''                const bool mine = std::less<const signal*>()(this, &other);
                lock_type lock1(mine ? m_SlotMutex : other.m_SlotMutex);
                lock_type lock2(mine ? other.m_SlotMutex : m_SlotMutex);
''')],
    'lock_adopt': [(S, MOVE, '''                std::lock(m_SlotMutex, other.m_SlotMutex);
                std::lock_guard<mutex_type> lock1(m_SlotMutex, std::adopt_lock);
                std::lock_guard<mutex_type> lock2(other.m_SlotMutex, std::adopt_lock);
''')],
    'read_scope': [(S, '''            lock_type lock(m_SlotMutex);
            return m_Slots;
''', '''            m_SlotMutex.lock();
            cow_type copy(m_Slots);
            m_SlotMutex.unlock();
            return copy;
''')],
    'emit_split': [(S, '''            const auto slots_copy = read_slots();
            const list_type no_slots;   // A moved-from signal has no list of slots.
            const auto& slots = slots_copy ? slots_copy.read() : no_slots;

            using iterator = detail::slot_iterator<R, list_iterator, Args...>;
            return Combiner()(iterator(slots.begin(), t), iterator(slots.end(), t));
''', '''            const auto slots_copy = read_slots();
            if (!slots_copy)
            {
                const list_type none;
                return combine(none, t);
            }
            return combine(*slots_copy, t);
'''), (S, '''    private:
        template <typename>
        friend class slot;
''', '''    private:
        static result_type combine(const list_type& slots, std::tuple<Args...>& t)
        {
            using iterator = detail::slot_iterator<R, list_iterator, Args...>;
            iterator first(slots.cbegin(), t);
            iterator last(slots.cend(), t);
            Combiner combiner;
            return combiner(first, last);
        }

        template <typename>
        friend class slot;
''')],
    'detach_rewrite': [(S, '''                if (m_Ptr && m_Ptr.use_count() > 1)
                {
                    // Detach from the shared pointer
                    // creating a new instance of the stored object.
                    *this = cow_ptr(new T(*m_Ptr));
                }
                else
                {''', '''                const bool shared = m_Ptr != nullptr && m_Ptr.use_count() != 1;
                if (shared)
                {
                    pointer_type fresh = std::make_shared<T>(static_cast<const T&>(*m_Ptr));
                    m_Ptr.swap(fresh);
                }
                else
                {''')],
    'cow_copy_swap': [(S, '''                if (this != &other)
                {
                    *this = cow_ptr(other);
                }

                return *this;
            }

            // Move assignment operator.
            cow_ptr& operator=(cow_ptr&& other) noexcept
            {
                m_Ptr = std::move(other.m_Ptr);
                return *this;''', '''                m_Ptr = other.m_Ptr;
                return *this;
            }

            // Move assignment operator.
            cow_ptr& operator=(cow_ptr&& other) noexcept
            {
                pointer_type p(std::move(other.m_Ptr));
                m_Ptr.swap(p);
                return *this;''')],
    'slot_call': [(S, '''            if (!blocked() && connected())
            {
                return (*m_pImpl)(std::forward<Args>(args)...);
            }

            return {};
        }

    private:''', '''            const bool callable = connected() && !blocked();
            if (!callable)
                return opt::nullopt;
            impl& target = *m_pImpl;
            return target(std::forward<Args>(args)...);
        }

    private:''')],
    'slot_disconnect': [(S, '''            if (m_pImpl && m_pSignal && m_pImpl->disconnect() )
            {
                m_pSignal->remove_slot(*this);
                return true;
            }

            return false;''', '''            if (!m_pImpl || m_pSignal == nullptr) return false;
            const bool was = m_pImpl->disconnect();
            if (was)
                m_pSignal->remove_slot(*this);
            return was;''')],
    'state_cas': [(S, '''                return m_Connected.exchange(false);''', '''                bool expected = true;
                return m_Connected.compare_exchange_strong(expected, false);''')],
    'state_orders': [(S, '''                return m_Connected;''', '''                return m_Connected.load(std::memory_order_acquire);'''), (S, '''                return m_Blocked;''', '''                return m_Blocked.load(std::memory_order_acquire);'''),
                     (S, '''                m_Blocked = true;''', '''                m_Blocked.store(true, std::memory_order_release);'''), (S, '''                m_Blocked = false;''', '''                m_Blocked.store(false, std::memory_order_release);'''),
                     (S, '''                return m_Connected.exchange(false);''', '''                return m_Connected.exchange(false, std::memory_order_acq_rel);''')],
    'tracked_call': [(S, '''                auto sp = m_Ptr.lock();
                if (!sp)
                {
                    this->disconnect();
                    return {};
                }

                if (this->connected())
                {
                    return invoke_helper<function_type>::call(m_Func, sp, std::forward<Args>(args)...);
                }

                return {};''', '''                if (auto sp = m_Ptr.lock())
                {
                    if (!slot_state::connected()) return {};
                    return invoke_helper<function_type>::call(m_Func, sp, std::forward<Args>(args)...);
                }
                slot_state::disconnect();
                return {};'''), (S, '''                auto sp = m_Ptr.lock();
                if (!sp)
                {
                    this->disconnect();
                }

                if (this->connected())
                {
                    invoke_helper''', '''                const auto sp = m_Ptr.lock();
                if (!sp)
                {
                    this->disconnect();
                    return {};
                }

                if (slot_state::connected())
                {
                    invoke_helper''')],
    'equals_order': [(S, '''                    return try_equals<pointer_type>::equals(m_Ptr, spmf->m_Ptr) &&
                        try_equals<function_type>::equals(m_Func, spmf->m_Func);''', '''                    if (!try_equals<function_type>::equals(m_Func, spmf->m_Func))
                        return false;
                    return try_equals<pointer_type>::equals(m_Ptr, spmf->m_Ptr);''', 2)],
    'blocker_swap': [(S, '''            release();
            m_Slot = std::move(c.m_Slot);
            return *this;''', '''            connection_blocker tmp(std::move(c));
            swap(tmp);
            return *this;''')],
    'scoped_assign': [(S, '''            this->disconnect();
            this->m_Slot = std::move(c.m_Slot);
            return *this;''', '''            slot_type incoming = std::move(c.m_Slot);
            this->disconnect();
            this->m_Slot.swap(incoming);
            return *this;''')],
    'conn_lock_once': [(S, '''            auto s = m_Slot.lock();
            return s && s->disconnect();''', '''            if (slot_ptr s = m_Slot.lock())
                return s->disconnect();
            return false;'''), (S, '''            const auto s = m_Slot.lock();
            return s && s->connected();''', '''            if (m_Slot.expired()) return false;
            const slot_ptr s = m_Slot.lock();
            return s != nullptr && s->connected();''')],
    'slot_assign_swap': [(S, '''            if (&other != this)
            {
                m_pImpl.reset(other.m_pImpl ? other.m_pImpl->clone() : nullptr);
                m_pSignal = other.m_pSignal;
            }
            return *this;''', '''            slot tmp(other);
            std::swap(m_pImpl, tmp.m_pImpl);
            std::swap(m_pSignal, tmp.m_pSignal);
            return *this;''')],
    'connect_helper': [(S, '''            auto s = slot_ptr_type(new slot_type(std::forward<Func>(f), static_cast<detail::signal_base*>(this)));
            connection c(s);
            add_slot(std::move(s));
            return c;''', '''            return attach(std::make_shared<slot_type>(std::forward<Func>(f), static_cast<detail::signal_base*>(this)));'''),
                       (S, '''            auto s = slot_ptr_type(new slot_type(std::forward<Func>(f), std::forward<Ptr>(p), static_cast<detail::signal_base*>(this)));
            connection c(s);
            add_slot(std::move(s));
            return c;''', '''            return attach(std::make_shared<slot_type>(std::forward<Func>(f), std::forward<Ptr>(p), static_cast<detail::signal_base*>(this)));'''),
                       (S, '''    private:
        template <typename>
        friend class slot;
''', '''    private:
        connection attach(slot_ptr_type s)
        {
            connection c{ slot_wptr(s) };
            add_slot(std::move(s));
            return c;
        }

        template <typename>
        friend class slot;
''')],
    'invoke_copy_iter': [(S, '''                slot_iterator tmp(*this);
                ++m_Iter;
                return tmp;''', '''                slot_iterator before = *this;
                ++*this;
                return before;''', 2), (S, '''                return m_Iter != other.m_Iter;''', '''                return !(*this == other);''', 2)],
    'iter_arg_get': [(S, '''                return (**m_Iter)(static_cast<slot_arg_t<Args>>(std::get<Is>(m_Args))...);''', '''                auto& target = *m_Iter->get();
                return target(static_cast<slot_arg_t<Args>>(std::get<Is>(m_Args))...);''')],
    'virtual_dtor': [(S, '''        virtual std::size_t& index() = 0;

    ''', '''        virtual std::size_t& index() = 0;

    ''')] ,
}
import refactors2, refactors3
R.update(refactors2.R)
R.update(refactors3.R)
if 'virtual_dtor' in R:
    del R['virtual_dtor']


def main():
    names = sys.argv[1:] or sorted(R)
    for n in names:
        w = seedlib.copy()
        seedlib.edit(w, R[n])
        ok, log = seedlib.tests(w, 4)
        if not ok:
            print(n, 'TESTS FAIL', log[-1500:])
            continue
        r = subprocess.run([sys.executable, H + "/tools/all.py", w, "--all", *(["--drv", "d_opt"] if n.startswith("opt_") else []), *os.environ.get('X', '').split(), '-j', os.environ.get('J', '8')], capture_output=True, text=True)
        print('%-24s %s' % (n, '\n      '.join(r.stdout.strip().splitlines()[-12:])))
        sys.stdout.flush()


main()

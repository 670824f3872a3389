"""More behaviour-preserving rewrites (see refactors.py)."""
S, O = 'signals.hpp', 'optional.hpp'
SIG = 'static_cast<detail::signal_base*>(this)'
R = {
    'shared_mutex': [(S, 'using mutex_type = std::mutex;', 'using mutex_type = std::shared_mutex;'), (S, '#include <atomic> ', '#include <shared_mutex>\n#include <atomic> '), (S, '''            lock_type lock(m_SlotMutex);
            return m_Slots;''', '''            std::shared_lock<mutex_type> lock(m_SlotMutex);
            return m_Slots;''')],
    'make_shared': [(S, 'slot_ptr_type(new slot_type(slot, %s))' % SIG, 'std::make_shared<slot_type>(slot, %s)' % SIG),
        (S, 'slot_ptr_type(new slot_type(std::forward<Func>(f), %s))' % SIG, 'std::make_shared<slot_type>(std::forward<Func>(f), %s)' % SIG),
        (S, 'slot_ptr_type(new slot_type(std::forward<Func>(f), std::forward<Ptr>(p), %s))' % SIG, 'std::make_shared<slot_type>(std::forward<Func>(f), std::forward<Ptr>(p), %s)' % SIG)],
    'static_empty': [(S, '            const list_type no_slots; ', '            static const list_type no_slots; ')],
    'recursive_mutex': [(S, 'using mutex_type = std::mutex;', 'using mutex_type = std::recursive_mutex;')],
    'opt_assign_early': [(O, '''            void assign(optional_base const& rhs)
            {
                if (is_initialized())
                {
                    if (rhs.is_initialized())
                        assign_value(rhs.get_impl());
                    else
                        destroy();
                }
                else
                {
                    if (rhs.is_initialized())
                        construct(rhs.get_impl());
                }
            }
''', '''            void assign(optional_base const& rhs)
            {
                if (!rhs.m_initialized)
                {
                    reset();
                    return;
                }
                if (!m_initialized)
                    construct(rhs.get_impl());
                else
                    assign_value(rhs.get_impl());
            }
'''), (O, '''            void assign(optional_base&& rhs)
            {
                if (is_initialized())
                {
                    if (rhs.is_initialized())
                        assign_value(std::move(rhs.get_impl()));
                    else
                        destroy();
                }
                else
                {
                    if (rhs.is_initialized())
                        construct(std::move(rhs.get_impl()));
                }
            }
''', '''            void assign(optional_base&& rhs)
            {
                if (rhs.is_initialized())
                    assign(std::move(rhs.get_impl()));
                else
                    destroy();
            }
''')],
    'opt_destroy': [(O, '''                if (m_initialized)
                    destroy_impl();
''', '''                if (!m_initialized)
                    return;
                m_initialized = false;
                get_ptr_impl()->~T();
'''), (O, '''        private:
            void destroy_impl()
            {
                get_impl().T::~T();
                m_initialized = false;
            }
        };
''', '''        };
''')],
    'opt_ptr': [(O, 'return reinterpret_cast<pointer_const_type>(&m_storage);', 'return std::addressof(get_impl());'),
        (O, 'return reinterpret_cast<pointer_type>(&m_storage);', 'return std::launder(static_cast<pointer_type>(static_cast<void*>(&m_storage)));'), (O, '#include <cassert> ', '#include <new>\n#include <cassert> ')],
    'opt_union': [(O, '            storage_type m_storage;\n', '            union { unsigned char m_none; typename std::remove_const<T>::type m_value; };\n'),
        (O, '''            optional_base() noexcept
                : m_initialized(false)
                , m_storage{}''', '''            optional_base() noexcept
                : m_initialized(false)
                , m_none(0)''', (1,)), (O, '''            optional_base(opt::nullopt_t) noexcept
                : m_initialized(false)
                , m_storage{}''', '''            optional_base(opt::nullopt_t) noexcept
                : m_initialized(false)
                , m_none(0)''', (1,)), (O, '''            explicit optional_base(in_place_if_t, bool cond, Args&&... args)
                : m_initialized(false)
                , m_storage{}''', '''            explicit optional_base(in_place_if_t, bool cond, Args&&... args)
                : m_initialized(false)
                , m_none(0)'''), (O, '::new(&m_storage)', '::new(static_cast<void*>(std::addressof(m_value)))', 2), (O, '::new (&m_storage)', '::new (static_cast<void*>(std::addressof(m_value)))', 2),
        (O, 'return reinterpret_cast<reference_const_type>(m_storage);', 'return m_value;'), (O, 'return reinterpret_cast<reference_type>(m_storage);', 'return m_value;'),
        (O, 'return reinterpret_cast<pointer_const_type>(&m_storage);', 'return std::addressof(m_value);'), (O, 'return reinterpret_cast<pointer_type>(&m_storage);', 'return std::addressof(m_value);')],
    'opt_rel': [(O, 'return bool(x) && bool(y) ? *x == *y : bool(x) == bool(y);', '''if (x.has_value() != y.has_value()) return false;
        return !x.has_value() || *x == *y;'''), (O, 'return (!y) ? false : (!x) ? true : *x < *y;', 'return y.has_value() && (!x.has_value() || *x < *y);'),
        (O, 'return bool(x) ? *x < v : true;', 'return !x || *x < v;', 3), (O, 'return bool(x) ? *x == v : false;', 'return x.has_value() && (*x == v);', 3),
        (O, 'return bool(x) ? v >= *x : true;', '''if (!x)
            return true;
        return v >= *x;''', 3)],
    'opt_value': [(O, '''            if (this->is_initialized())
                return this->get();
            else
                throw bad_optional_access("Attempted to retrieve the value of a disengaged optional.");
''', '''            check_engaged();
            return this->get_impl();
''', 2), (O, '''        reference_const_type value() const&
        {
            check''', '''        void check_engaged() const
        {
            if (!*this)
                throw bad_optional_access("Attempted to retrieve the value of a disengaged optional.");
        }

        reference_const_type value() const&
        {
            check''')],
    'opt_value_or': [(O, '''            if (this->is_initialized())
                return get();
            else
                return std::forward<U>(v);
''', '''            return this->is_initialized() ? this->get_impl() : static_cast<value_type>(std::forward<U>(v));
'''), (O, '''            if (this->is_initialized())
                return std::move(get());
            else
                return std::forward<U>(v);
''', '''            if (!has_value())
                return std::forward<U>(v);
            return std::move(this->get());
''')],
    'opt_swap3': [(O, '''            std::swap(*this, rhs);
''', '''            if (this->is_initialized() && rhs.is_initialized())
            {
                using std::swap;
                swap(this->get_impl(), rhs.get_impl());
            }
            else if (this->is_initialized())
            {
                rhs.construct(std::move(this->get_impl()));
                this->destroy();
            }
            else if (rhs.is_initialized())
            {
                this->construct(std::move(rhs.get_impl()));
                rhs.destroy();
            }
''')],
    'opt_ref': [(O, 'return ref ? *ref : (throw bad_optional_access("Attempted to retrieve the value of a disengaged optional."), *ref);', '''if (!ref)
                throw bad_optional_access("Attempted to retrieve the value of a disengaged optional.");
            return *ref;'''), (O, 'return ref ? *ref : (assert(ref), *ref);', '''assert(ref != nullptr);
            return *ref;'''), (O, 'std::swap(ref, rhs.ref);', '''T* const t = ref;
            ref = rhs.ref;
            rhs.ref = t;'''), (O, 'return ref ? *ref : std::forward<V>(v);', '''if (has_value())
                return **this;
            return std::forward<V>(v);''')],
    'opt_tc': [(O, '''                if (rhs.is_initialized())
                    m_storage = rhs.get();

                m_initialized = rhs.is_initialized();
''', '''                if (!rhs)
                {
                    destroy();
                    return;
                }
                construct(static_cast<T>(*rhs));
'''), (O, '''                m_initialized = false;
            }
        };

        namespace config''', '''                m_storage = T();
                m_initialized = false;
            }
        };

        namespace config''')],
    'pmf_void_base': [(S, '''                invoke_helper<function_type>::call(m_Func, m_Ptr, std::forward<Args>(args)...);
                return {};''', '''                static_cast<void>(invoke_helper<function_type>::call(m_Func, m_Ptr, std::forward<Args>(args)...));
                return opt::nullopt;'''), (S, 'return (invoke_helper<fuction_type>::call(m_Func, std::forward<Args>(args)...), opt::nullopt);', '''invoke_helper<fuction_type>::call(m_Func, std::forward<Args>(args)...);
                return {};''')],
    'iter_base': [(S, '''                slot_iterator tmp(*this);
                ++m_Iter;
                return tmp;''', '''                auto tmp = *this;
                ++*this;
                return tmp;''', 2), (S, 'return m_Iter != other.m_Iter;', 'return !(*this == other);', 2)],
    'try_equals_tag': [(S, '''                    return try_equals<pointer_type>::equals(m_Ptr, spmft->m_Ptr) &&
                        try_equals<function_type>::equals(m_Func, spmft->m_Func);''', '''                    if (!try_equals<pointer_type>::equals(m_Ptr, spmft->m_Ptr))
                        return false;
                    return try_equals<function_type>::equals(m_Func, spmft->m_Func);''', 2)],
    'dyn_cast': [(S, '''                if (auto sfunc = dynamic_cast<const slot_func*>(s))
                {
                    return try_equals<fuction_type>::equals(m_Func, sfunc->m_Func);
                }

                return false;''', '''                if (!s || typeid(*s) != typeid(*this))
                    return false;
                return try_equals<fuction_type>::equals(m_Func, static_cast<const slot_func*>(s)->m_Func);''', 2), (S, '#include <atomic> ', '#include <typeinfo>\n#include <atomic> ')],
    'snapshot_vec': [(S, '''            const auto slots_copy = read_slots();
            const list_type no_slots;   // A moved-from signal has no list of slots.
            const auto& slots = slots_copy ? slots_copy.read() : no_slots;
''', '''            const list_type slots = snapshot();
'''), (S, '''        // Get a copy of the slots for reading.
''', '''        list_type snapshot() const
        {
            lock_type lock(m_SlotMutex);
            const cow_type& s = m_Slots;
            if (s)
                return s.read();
            return list_type();
        }

        // Get a copy of the slots for reading.
''')],
    'conn_template': [(S, '''            const auto s = m_Slot.lock();
            return s && s->connected();''', '''            if (const auto s = m_Slot.lock())
                return s->connected();
            return false;'''), (S, '''            const auto s = m_Slot.lock();
            return s && s->blocked();''', '''            const slot_ptr s{ m_Slot.lock() };
            return s ? s->blocked() : false;''')],
    'members_order': [(S, '''        private:
            std::size_t m_Index;
            std::atomic_bool m_Connected;
            std::atomic_bool m_Blocked;''', '''        private:
            std::atomic_bool m_Blocked;
            std::atomic_bool m_Connected;
            std::size_t m_Index;'''), (S, '''                : m_Index(0)
                , m_Connected(true)
                , m_Blocked(false)''', '''                : m_Blocked(false)
                , m_Connected(true)
                , m_Index()''')],
}

// C24: programs of the documentation and header uses; each is compiled as C++11, 14, 17 and 20 by clang and as C++11, 17 and 20 by g++.

//// C24 accept readme_1
#include "signals.hpp"
#include <iostream>

void hello_world()
{
    std::cout << "Hello, World!" << std::endl;
}

int main()
{
    // Define a signal that takes no arguments and returns void.
    using signal = sig::signal<void()>;
    signal s;

    // Connect the hello_world function to the signal.
    s.connect(&hello_world);

    // Call the signal.
    s();

    return 0;
}

//// C24 accept readme_2
#include "signals.hpp"
#include <iostream>

void hello()
{
    std::cout << "Hello";
}

void world()
{
    std::cout << ", World!" << std::endl;
}

int main()
{
    // Define a signal that takes no arguments and returns void.
    using signal = sig::signal<void()>;
    signal s;

    // Connect the hello, and world functions to the signal.
    s.connect(&hello);
    s.connect(&world);

    // Call the signal.
    s();

    return 0;
}

//// C24 accept readme_3
#include "signals.hpp"
#include <iostream>

void print_args(float x, float y)
{
    std::cout << "The arguments are " << x << " and " << y << std::endl;
}

void print_sum(float x, float y)
{
    std::cout << "The sum is " << x + y << std::endl;
}

void print_product(float x, float y)
{
    std::cout << "The product is " << x * y << std::endl;
}

void print_difference(float x, float y)
{
    std::cout << "The difference is " << x - y << std::endl;
}

void print_quotient( float x, float y)
{
    std::cout << "The quotient is " << x / y << std::endl;
}

int main()
{
    // Define a signal that takes two floats and returns void.
    using signal = sig::signal<void(float, float)>;
    signal s;

    // Connect the functions to the signal.
    s.connect(&print_args);
    s.connect(&print_sum);
    s.connect(&print_product);
    s.connect(&print_difference);
    s.connect(&print_quotient);

    // Invoke the signal.
    s(5.0f, 3.0f);

    return 0;
}

//// C24 accept readme_4
#include "signals.hpp"
#include <iostream>

float product(float x, float y) { return x * y; };
float quotient(float x, float y) { return x / y; }
float sum(float x, float y) { return x + y; }
float difference(float x, float y) { return x - y; }

int main()
{
    // Define a signal that takes two floats and returns a float.
    using signal = sig::signal<float(float, float)>;
    signal s;

    // Connect all of the functions to the signal.
    s.connect(&product);
    s.connect(&quotient);
    s.connect(&sum);
    s.connect(&difference);

    // The default combiner returns a opt::optional containing
    // the return value of the last slot in the list, in this case
    // the result of the difference function.
    std::cout << *s(5.0f, 3.0f) << std::endl;

    return 0;
}

//// C24 accept readme_5
#include "signals.hpp"
#include <iostream>

template<typename T>
class maximum_value
{
public:
    using result_type = opt::optional<T>;

    template<typename InputIterator>
    result_type operator()(InputIterator first, InputIterator last) const
    {
        result_type max;
        while (first != last)
        {
            // Dereferencing the iterator invokes the connected function.
            result_type tmp = *first;
            if ( tmp > max) max = tmp;

            ++first;
        }
        return max;
    }
};

float product(float x, float y) { return x * y; };
float quotient(float x, float y) { return x / y; }
float sum(float x, float y) { return x + y; }
float difference(float x, float y) { return x - y; }

int main()
{
    // Define a signal that takes two floats and returns a float.
    // The return value of the signal is the maximum value of all connected slots.
    using signal = sig::signal<float(float, float), maximum_value<float>>;
    signal s;

    // Connect all of the functions to the signal.
    s.connect(&product);
    s.connect(&quotient);
    s.connect(&sum);
    s.connect(&difference);

    // The maximum_value combiner returns the maximum
    // value returned by all connected slots.
    // In this case, the result is 15 since 5 * 3 is 15.
    std::cout << *s(5.0f, 3.0f) << std::endl;

    return 0;
}

//// C24 accept readme_6
#include "signals.hpp"
#include <iostream>
#include <vector>

template<typename Container>
class aggregate_values
{
public:
    using result_type = Container;

    template<typename InputIterator>
    result_type operator()(InputIterator first, InputIterator last) const
    {
        result_type values;
        while (first != last)
        {
            auto value = *first++;
            if ( value )
                values.push_back(*value);
        }
        return values;
    }
};

float product(float x, float y) { return x * y; };
float quotient(float x, float y) { return x / y; }
float sum(float x, float y) { return x + y; }
float difference(float x, float y) { return x - y; }

int main()
{
    // Define a signal that takes two floats and returns a float.
    // The return value of the signal is a list of the return values of all connected slots.
    using signal = sig::signal<float(float, float), aggregate_values<std::vector<float>>>;
    signal s;

    // Connect all of the functions to the signal.
    s.connect(&product);
    s.connect(&quotient);
    s.connect(&sum);
    s.connect(&difference);

    std::cout << "Aggregate values: ";
    // The aggregate_values combiner returns a list
    // of all of the values from the connected slots.
    for ( auto f : s(5.0f, 3.0f) )
    {
        std::cout << f << " ";
    }
    std::cout << std::endl;

    return 0;
}

//// C24 accept readme_7
#include "signals.hpp"
#include <iostream>

class Calculator
{
public:
    float product(float x, float y)
    {
        return x * y;
    }

    float sum(float x, float y)
    {
        return x + y;
    }

    float difference(float x, float y)
    {
        return x - y;
    }

    float quotient(float x, float y)
    {
        return x / y;
    }
};

int main()
{
    // Define a signal that takes two floats and returns a float.
    using signal = sig::signal<float(float, float)>;
    signal s;

    // Create an instance of calculator.
    Calculator c;

    // Connect all of the functions to the signal.
    s.connect(&Calculator::product, &c);
    s.connect(&Calculator::sum, &c);
    s.connect(&Calculator::quotient, &c);
    s.connect(&Calculator::difference, &c);

    std::cout << *s(5.0f, 3.0f) << std::endl;

    return 0;
}

//// C24 accept readme_8
#include "signals.hpp"
#include <iostream>
#include <memory>

class Calculator
{
public:
    float product(float x, float y) { return x * y; }
    float sum(float x, float y) { return x + y; }
    float difference(float x, float y) { return x - y; }
    float quotient(float x, float y) { return x / y; }
};

int main()
{
    // Define a signal that takes two floats and returns a float.
    // The return value of the signal is a list of all return values of connected slots.
    using signal = sig::signal<float(float, float)>;
    signal s;

    {    // Create a shared pointer instance of Calculator.
        auto c = std::make_shared<Calculator>();

        // Connect all of the functions to the signal
        // with a shared pointer to the calculator instance.
        s.connect(&Calculator::product, c);
        s.connect(&Calculator::sum, c);
        s.connect(&Calculator::quotient, c);
        s.connect(&Calculator::difference, c);

        // Okay, should return 2.
        std::cout << *s(5.0f, 3.0f) << std::endl;
    } // The shared pointer instance goes out of scope and should be destroyed.

    // Invoking the signal again should result in a disengaged optional value.
    auto result = s(5.0f, 3.0f);
    if ( result )
    {
        std::cout << *result << std::endl;
    }
    else
    {
        std::cout << "Invalid result!" << std::endl;
    }

    return 0;
}

//// C24 accept readme_9
#include "signals.hpp"
#include <iostream>

struct HelloWorld
{
    void operator()() const
    {
        std::cout << "Hello, World!" << std::endl;
    }
};

int main()
{
    // Define a signal that takes no arguments and returns void.
    using signal = sig::signal<void()>;
    signal s;

    // Connect the HelloWorld function object to the signal.
    auto c = s.connect(HelloWorld());

    // Call the signal.
    // This should print "Hello, World!" to the console.
    s();

    // Disconnect the slot.
    c.disconnect();

    // Call the signal again.
    // Nothing is printed to the console.
    s();

    return 0;
}

//// C24 accept readme_10
#include "signals.hpp"
#include <iostream>

struct HelloWorld
{
    void operator()() const
    {
        std::cout << "Hello, World!" << std::endl;
    }
};

int main()
{
    // Define a signal that takes no arguments and returns void.
    using signal = sig::signal<void()>;
    signal s;

    // Connect the HelloWorld function object to the signal.
    auto c = s.connect(HelloWorld());

    // Invoke the signal.
    // This should print "Hello, World!" to the console.
    s();

    {
        // Create a connection_blocker which will block the slot until
        // the connection_blocker is destroyed.
        // You can also use c.block() but then you need to call
        // c.unblock() to unblock the slot again.
        auto b = c.blocker();

        // Invoke the signal again.
        // In this case, nothing is printed to the console.
        s();
    }

    // Invoke the slot again.
    // This should print "Hello, World!" to the console.
    s();

    return 0;
}

//// C24 accept readme_11
#include "signals.hpp"
#include <iostream>

struct HelloWorld
{
    void operator()() const
    {
        std::cout << "Hello, World!" << std::endl;
    }
};

int main()
{
    // Define a signal that takes no arguments and returns void.
    using signal = sig::signal<void()>;
    signal s;

    {
        // Create scoped_connection object.
        // A scoped_connection will disconnect the signal
        // when it goes out of scope.
        auto sc = s.connect_scoped(HelloWorld());

        // Invoke the signal again.
        // This should print "Hello, World!" to the console.
        s();
    }

    // Invoke the slot again.
    // Nothing is printed to the console.
    s();

    return 0;
}

//// C24 accept readme_12
#include "signals.hpp"
#include <iostream>

float product(float x, float y) { return x * y; };
float quotient(float x, float y) { return x / y; }
float sum(float x, float y) { return x + y; }
float difference(float x, float y) { return x - y; }

int main()
{
    // Define a signal that takes two floats and returns a float.
    using signal = sig::signal<float(float,float)>;
    signal s;

    // Connect all of the functions to the signal.
    s.connect(&product);
    s.connect(&quotient);
    s.connect(&sum);
    s.connect(&difference);

    // Should print 2 (the result of difference)
    std::cout << *s(5.0f, 3.0f) << std::endl;

    // Disconnect the last slot.
    s.disconnect(&difference);

    // Should print 8 (the result of sum)
    std::cout << *s(5.0f, 3.0f) << std::endl;

    // Disconnect the first slot.
    // For efficency, sum becomes the first slot.
    s.disconnect(&product);

    // This actually prints 1.6667 since
    // quotient becomes the last slot in the signal.
    std::cout << *s(5.0f, 3.0f) << std::endl;

    s.disconnect(&quotient);

    // Should now print 8 (the result of sum)
    std::cout << *s(5.0f, 3.0f) << std::endl;

    s.disconnect(&sum);

    // All slots disconnected.
    // Invoking the signal now should result
    // in a disengaged opt::optional value.
    auto result = s(5.0f, 3.0f);
    if ( result )
    {
        std::cout << *result << std::endl;
    }
    else
    {
        std::cout << "Result is invalid!" << std::endl;
    }

    return 0;
}

//// C24 accept example_delegates
#include "signals.hpp"
#include <iostream>

// Delegate that holds function callbacks.
// For simplicity, delegates are limited to void return types.
template<typename... Args>
class Delegate
{
public:
    using signal = sig::signal<void(Args...)>;
    using connection = sig::connection;

    // Adds a function callback to the delegate.
    template<typename Func>
    connection operator+=(Func&& f)
    {
        return m_Callbacks.connect(std::forward<Func>(f));
    }

    // Remove a function callback.
    // Returns the number of functions removed.
    template<typename Func>
    std::size_t operator-=(Func&& f)
    {
        return m_Callbacks.disconnect(std::forward<Func>(f));
    }

    // Invoke the delegate.
    // All connected callbacks are invoked.
    void operator()(Args&&... args)
    {
        m_Callbacks(std::forward<Args>(args)...);
    }
private:
    signal m_Callbacks;
};

// Base class for all event args.
class EventArgs
{
public:
    EventArgs() = default;
    virtual ~EventArgs() = default;
};

// Define an event that takes a reference to EventArgs 
// as it's only argument.
using Event = Delegate<EventArgs&>;

class MouseMotionEventArgs : public EventArgs
{
public:
    using base = EventArgs;

    MouseMotionEventArgs( int x, int y )
        : base()
        , X(x)
        , Y(y)
    {}

    int X;
    int Y;
};

// Define an event that is fired when the mouse moves over 
// the application window.
using MouseMotionEvent = Delegate<MouseMotionEventArgs&>;

// Declare the windows processor function.
void WndProc();

// The Application class defines a few events that can be handled by 
// callback functions elsewhere.
class Application
{
public:
    Application() = default;
    virtual ~Application() = default;

    // Application events.
    Event            Update;
    Event            Render;
    MouseMotionEvent MouseMoved;

protected:
    friend void WndProc();

    virtual void OnUpdate()
    {
        EventArgs e;
        // Invoke event.
        Update(e);
    }

    virtual void OnRender()
    {
        EventArgs e;
        // Invoke event.
        Render(e);
    }

    virtual void OnMouseMoved(int x, int y)
    {
        MouseMotionEventArgs e(x, y);
        // Invoke event.
        MouseMoved(e);
    }
};

// I know, globals are evil, but it makes the 
// example easier.
static Application app;
// Simulate a windows process function.
void WndProc()
{
    app.OnUpdate();
    app.OnRender();
    app.OnMouseMoved(60, 80);
}

// Define a few callback functions that will handle events from the application.
// Any number of callback functions can handle the events from the application class.
void OnUpdate(EventArgs& e)
{
    std::cout << "Update game..." << std::endl;
}

void OnRender(EventArgs& e)
{
    std::cout << "Render game..." << std::endl;
}

void OnMouseMoved(MouseMotionEventArgs& e)
{
    std::cout << "Mouse moved: " << e.X << ", " << e.Y << std::endl;
}

int main()
{
    // Register some callback functions.
    app.Update += &OnUpdate;
    app.Render += &OnRender;
    app.MouseMoved += &OnMouseMoved;

    // Execute the windows event processor
    WndProc();

    // Unregister callback functions
    app.Update -= &OnUpdate;
    app.Render -= &OnRender;
    app.MouseMoved -= &OnMouseMoved;

    // Execute the windows event processor again.
    // This time, nothing should happen.
    WndProc();

    return 0;
}

//// C24 accept optional_alone
#include "optional.hpp"
struct P { int a; P(int x) : a(x) {} bool operator==(const P& o) const { return a == o.a; } bool operator<(const P& o) const { return a < o.a; } };
int main()
{
    opt::optional<int> a, b(2), c(opt::nullopt); opt::optional<P> p(P(1)), q(opt::in_place, 2); int v = 3; opt::optional<int&> r(v); opt::optional<void> w;
    a = 4; a = opt::nullopt; a = b; a.swap(c); std::swap(a, b); p = q; p = std::move(q); p.emplace(5); p.reset(); r = opt::optional<int&>(v); r.emplace(v); r = opt::nullopt; w.reset();
    bool t = a == b || a != b || a < b || a > b || a <= b || a >= b || a == opt::nullopt || opt::nullopt != a || a == 1 || 1 < a || p == q || p < q || r == 3 || 3 >= r;
    try { t = t || a.value() == 1 || r.value() == 1; } catch (const opt::bad_optional_access& e) { t = e.what() != nullptr; } catch (const std::logic_error&) {}
    auto m = opt::make_optional(1); auto n = opt::make_optional<P>(7); auto o = opt::make_optional(true, 2); auto s = opt::make_optional(std::ref(v));
    const auto& cm = m; t = t || *cm == 1 || cm.value_or(2) == 1 || opt::get(m) == 1 || opt::get_pointer(m) || cm.get_ptr() || cm.get_value_or(3) || n->a == 1 || bool(o) || s.has_value();
    return t;
}

//// C24 accept optional_before_signals
#include "optional.hpp"
#include "signals.hpp"
#include "optional.hpp"
#include "signals.hpp"
int main() { sig::signal<int(int)> s; opt::optional<int> r = s(1); return r ? 1 : 0; }

//// C24 accept signals_before_optional
#include "signals.hpp"
#include "optional.hpp"
int main() { sig::signal<int(int)> s; opt::optional<int> r = s(1); return r ? 1 : 0; }

//// C24 accept after_the_standard_library
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <numeric>
#include <set>
#include <string>
#include <thread>
#include <vector>
using namespace std;
#include "signals.hpp"
int main() { sig::signal<string(const string&)> s; s.connect([](const string& x) { return x; }); auto r = s("a"); std::map<int, sig::scoped_connection> m; m[1] = s.connect_scoped([](const string& x) { return x; }); vector<sig::connection> v; v.push_back(sig::connection()); return r ? 1 : 0; }

//// C24 accept whole_interface
#include "signals.hpp"
#include <string>
static int f(int a) { return a; }
static void g(int) {}
struct Fn { int k; int operator()(int a) const { return a + k; } bool operator==(const Fn& o) const { return k == o.k; } };
struct B { virtual ~B() {} virtual int v(int a) { return a; } int c(int a) const { return a; } int d; };
struct D : B { int v(int a) override { return -a; } };
struct Sum { using result_type = int; template<class I> int operator()(I first, I last) const { int n = 0; for (; first != last; ++first) { auto r = *first; if (r) n += *r; } return n; } };
int main()
{
    using S = sig::signal<int(int)>; using V = sig::signal<void(int)>;
    S s; V v; sig::signal<int(int), Sum> t; D o; std::shared_ptr<D> sp = std::make_shared<D>(); std::weak_ptr<D> wp = sp; const D co = D();
    sig::connection c = s.connect(f), c2 = c, c3(std::move(c2)); c2 = c; c2 = std::move(c3); c.swap(c2);
    s.connect(&f); s.connect(Fn{ 1 }); s.connect([](int a) { return a; }); s.connect([&](int a) mutable { return a; }); s.connect(std::function<int(int)>(f));
    s.connect(&B::v, &o); s.connect(&B::c, &co); s.connect(&B::v, sp); s.connect(&D::v, std::ref(o)); s.connect(&D::c, o);
    v.connect(g); v.connect(f); v.connect(&B::v, &o);
    sig::slot<int(int)> sl(f), sm(&B::v, &o), st(&B::v, sp), sw(&B::v, wp), se, sc(sl); sl = sm; sl = std::move(sm); se = sl; s.connect(sl);
    opt::optional<int> r = sl(1); r = s(1); int n = t(1); v(1);
    sig::scoped_connection a = s.connect_scoped(f), b(std::move(a)), e; e = std::move(b); e.swap(a); sig::connection h = e.release(); b = s.connect(f);
    { sig::connection_blocker k = h.blocker(), l; l = std::move(k); } h.block(); h.unblock();
    std::size_t z = s.disconnect(f) + s.disconnect(&B::v, &o) + s.disconnect(Fn{ 1 }) + s.disconnect(sl);
    try { s.disconnect([](int a) { return a; }); } catch (const sig::not_comparable_exception& x) { z += x.what() != nullptr; }
    bool q = c.connected() || c.blocked() || c.disconnect() || h.connected() || e.connected();
    S s2(std::move(s)), s3; s3 = std::move(s2); std::swap(s3, s2); c.disconnect();
    return q + n + (int)z;
}

//// C24 reject copy_signal
#include "signals.hpp"
int main() { sig::signal<int(int)> s; auto t = s; }

//// C24 reject copy_scoped_connection
#include "signals.hpp"
int main() { sig::scoped_connection s; auto t = s; }

//// C24 reject copy_blocker
#include "signals.hpp"
int main() { sig::connection_blocker s; auto t = s; }

//// C24 reject ill_typed_callable
#include "signals.hpp"
static int f(int*) { return 0; }
int main() { sig::signal<int(int)> s; s.connect(f); }

//// C24 reject optional_reference_to_temporary
#include "optional.hpp"
int main() { opt::optional<const int&> r(3); }

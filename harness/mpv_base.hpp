// Support code for the generated-input checks.  C++98 compatible.  It observes
// parsing results only through the documented interface (is_error, get_*,
// MPL sequence operations, get_value of error messages) and prints them.
#ifndef MPV_BASE_HPP
#define MPV_BASE_HPP

#include <boost/metaparse.hpp>
#include <boost/metaparse/string.hpp>

#include <boost/metaparse/string_value.hpp>

#include <boost/mpl/advance.hpp>
#include <boost/mpl/apply_wrap.hpp>
#include <boost/mpl/at.hpp>
#include <boost/mpl/back.hpp>
#include <boost/mpl/begin_end.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/mpl/fold.hpp>
#include <boost/mpl/placeholders.hpp>
#include <boost/mpl/char.hpp>
#include <boost/mpl/clear.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/mpl/deref.hpp>
#include <boost/mpl/distance.hpp>
#include <boost/mpl/prior.hpp>
#include <boost/mpl/integral_c.hpp>
#include <boost/mpl/iterator_tags.hpp>
#include <boost/mpl/next.hpp>
#include <boost/mpl/empty.hpp>
#include <boost/mpl/equal_to.hpp>
#include <boost/mpl/front.hpp>
#include <boost/mpl/greater.hpp>
#include <boost/mpl/greater_equal.hpp>
#include <boost/mpl/has_xxx.hpp>
#include <boost/mpl/int.hpp>
#include <boost/mpl/is_sequence.hpp>
#include <boost/mpl/lambda.hpp>
#include <boost/mpl/less.hpp>
#include <boost/mpl/less_equal.hpp>
#include <boost/mpl/not_equal_to.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/list_c.hpp>
#include <boost/mpl/pop_back.hpp>
#include <boost/mpl/pop_front.hpp>
#include <boost/mpl/push_back.hpp>
#include <boost/mpl/push_front.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/mpl/vector_c.hpp>
#include <boost/mpl/string.hpp>
#include <boost/mpl/tag.hpp>
#include <boost/type_traits/is_same.hpp>

#include <cstdio>
#include <cstdlib>
#include <string>

namespace mpv
{
  struct cons_tag;
  struct slim_tag;
  struct slim_end;
  template <int C, class T> struct slim;
  struct nil;
  template <int C, class T> struct cons;
  template <class S> struct cons_iterator;

  namespace mp = boost::metaparse;
  namespace mpl = boost::mpl;

  // ---------------------------------------------------------------- output
  inline void put_escaped(const char* s_, unsigned long n_)
  {
    for (unsigned long i = 0; i != n_; ++i)
    {
      const unsigned char c = static_cast<unsigned char>(s_[i]);
      if (c > 32 && c < 127 && c != '\\') std::putchar(c);
      else std::printf("\\%02x", c);
    }
  }
  inline void put_escaped(const std::string& s_)
  {
    put_escaped(s_.data(), s_.size());
  }

  // ------------------------------------------------ user-level vocabulary
  // Some values look like parsing outcomes; a result may be any value
  template <int Id> struct looks {};
  template <> struct looks<8> { typedef mp::fail_tag tag; };
  template <> struct looks<9> { typedef mp::accept_tag tag; };
  // A value with an identity
  template <int Id> struct val : looks<Id> { typedef val type; };
  // Structural terms built by the user supplied metafunction classes
  template <int Id, class A> struct term1 : looks<Id> { typedef term1 type; };
  template <int Id, class A, class B> struct term2 : looks<Id> { typedef term2 type; };
  template <int Id, class A, class B, class C>
  struct term3 : looks<Id> { typedef term3 type; };
  template <int Id, class A, class B, class C, class D>
  struct term4 : looks<Id> { typedef term4 type; };

  template <int Id, class A0, class A1, class A2, class A3, class A4>
  struct term5 : looks<Id> { typedef term5 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5>
  struct term6 : looks<Id> { typedef term6 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6>
  struct term7 : looks<Id> { typedef term7 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7>
  struct term8 : looks<Id> { typedef term8 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8>
  struct term9 : looks<Id> { typedef term9 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9>
  struct term10 : looks<Id> { typedef term10 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10>
  struct term11 : looks<Id> { typedef term11 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11>
  struct term12 : looks<Id> { typedef term12 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12>
  struct term13 : looks<Id> { typedef term13 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13>
  struct term14 : looks<Id> { typedef term14 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14>
  struct term15 : looks<Id> { typedef term15 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15>
  struct term16 : looks<Id> { typedef term16 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16>
  struct term17 : looks<Id> { typedef term17 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16, class A17>
  struct term18 : looks<Id> { typedef term18 type; };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16, class A17, class A18>
  struct term19 : looks<Id> { typedef term19 type; };

  template <int Id> struct fun1
  {
    typedef fun1 type;
    template <class A> struct apply { typedef term1<Id, typename A::type> type; };
  };
  template <int Id> struct fun2
  {
    typedef fun2 type;
    template <class A, class B>
    struct apply { typedef term2<Id, typename A::type, typename B::type> type; };
  };
  // The same as a placeholder expression
  template <class Id, class A> struct act
  { typedef term1<Id::value, typename A::type> type; };
  // Template classes for sequence_apply
  template <int Id> struct tmpl
  {
    template <class A> struct t1 { typedef term1<Id, typename A::type> type; };
    template <class A, class B>
    struct t2 { typedef term2<Id, typename A::type, typename B::type> type; };
    template <class A, class B, class C>
    struct t3
    { typedef term3<Id, typename A::type, typename B::type, typename C::type> type; };
    template <class A, class B, class C, class D>
    struct t4
    {
      typedef
        term4<Id, typename A::type, typename B::type, typename C::type,
              typename D::type>
        type;
    };
    template <class A0, class A1, class A2, class A3, class A4>
    struct t5
    { typedef term5<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5>
    struct t6
    { typedef term6<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6>
    struct t7
    { typedef term7<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7>
    struct t8
    { typedef term8<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8>
    struct t9
    { typedef term9<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9>
    struct t10
    { typedef term10<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10>
    struct t11
    { typedef term11<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11>
    struct t12
    { typedef term12<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12>
    struct t13
    { typedef term13<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13>
    struct t14
    { typedef term14<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type, typename A13::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14>
    struct t15
    { typedef term15<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type, typename A13::type, typename A14::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15>
    struct t16
    { typedef term16<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type, typename A13::type, typename A14::type, typename A15::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16>
    struct t17
    { typedef term17<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type, typename A13::type, typename A14::type, typename A15::type, typename A16::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16, class A17>
    struct t18
    { typedef term18<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type, typename A13::type, typename A14::type, typename A15::type, typename A16::type, typename A17::type> type; };
    template <class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16, class A17, class A18>
    struct t19
    { typedef term19<Id, typename A0::type, typename A1::type, typename A2::type, typename A3::type, typename A4::type, typename A5::type, typename A6::type, typename A7::type, typename A8::type, typename A9::type, typename A10::type, typename A11::type, typename A12::type, typename A13::type, typename A14::type, typename A15::type, typename A16::type, typename A17::type, typename A18::type> type; };
  };
  // Nullary metafunction returning T
  template <class T> struct lazy { typedef T type; };

  // Error messages with an identity
  template <int Id> struct msg
  {
    typedef msg type;
    static std::string get_value()
    {
      char buf[32];
      std::sprintf(buf, "user message %d", Id);
      return buf;
    }
  };
  template <int Id, class M> struct wrapped_msg
  {
    typedef wrapped_msg type;
    static std::string get_value()
    {
      char buf[32];
      std::sprintf(buf, "wrapped %d <", Id);
      return buf + std::string(M::get_value()) + ">";
    }
  };
  // transform_error_message function
  template <int Id> struct wrap_msg
  {
    typedef wrap_msg type;
    template <class M>
    struct apply { typedef wrapped_msg<Id, typename M::type> type; };
  };
  // transform_error function: moves the message, keeps the position
  template <int Id> struct wrap_err
  {
    typedef wrap_err type;
    template <class E> struct apply :
      mp::reject<
        wrapped_msg<Id, typename mp::get_message<E>::type>,
        typename mp::get_position<E>::type
      >
    {};
  };
  // transform_error function turning the error into success
  template <int Id> struct recover_err
  {
    typedef recover_err type;
    template <class E> struct apply :
      mp::accept<val<Id>, mp::string<>, typename mp::get_position<E>::type>
    {};
  };
  // transform_error function moving the error
  template <int L, int C> struct move_err
  {
    typedef move_err type;
    template <class E> struct apply :
      mp::reject<
        typename mp::get_message<E>::type,
        mp::source_position<mpl::int_<L>, mpl::int_<C>, mpl::char_<'m'> >
      >
    {};
  };

  // A user defined forward sequence of boxed characters
  struct cons_tag { typedef cons_tag type; };
  struct nil { typedef nil type; typedef cons_tag tag; };
  template <int C, class T> struct cons
  {
    typedef cons type;
    typedef cons_tag tag;
    typedef T tail;
    static const int head = C;
  };
  template <class S> struct cons_iterator
  {
    typedef cons_iterator type;
    typedef mpl::forward_iterator_tag category;
  };

  // offers an emptiness test, the first element and removal at the front only
  struct slim_tag { typedef slim_tag type; };
  struct slim_end { typedef slim_end type; typedef slim_tag tag; };
  template <int C, class T> struct slim
  {
    typedef slim type;
    typedef slim_tag tag;
    typedef T tail;
    static const int head = C;
  };

  // Predicates
  template <int Lo, int Hi> struct pred_range
  {
    typedef pred_range type;
    template <class C> struct apply :
      mpl::bool_<(Lo <= C::type::value && C::type::value <= Hi)>
    {};
  };
  template <int M, int R> struct pred_mod
  {
    typedef pred_mod type;
    template <class C> struct apply :
      mpl::bool_<(((int)C::type::value % M + M) % M == R)>
    {};
  };

  template <bool B> struct pred_const
  {
    typedef pred_const type;
    template <class> struct apply : mpl::bool_<B> {};
  };

  // ------------------------------------------------------- showing values
  BOOST_MPL_HAS_XXX_TRAIT_NAMED_DEF(has_type_member, type, false)

  template <class T> struct has_value_member
  {
    typedef char yes;
    struct no { char c[2]; };
    template <int> struct eat {};
    template <class U> static yes test(eat<sizeof((U::value), 0)>*);
    template <class U> static no test(...);
    static const bool value = sizeof(test<T>(0)) == sizeof(yes);
  };

  template <class T> struct show;

  template <class Seq, bool Empty> struct show_elements
  {
    static void run()
    {
      show<typename mpl::front<Seq>::type>::run();
      typedef typename mpl::pop_front<Seq>::type rest;
      if (!mpl::empty<rest>::type::value) std::putchar(' ');
      show_elements<rest, mpl::empty<rest>::type::value>::run();
    }
  };
  template <class Seq> struct show_elements<Seq, true>
  {
    static void run() {}
  };

  // Kind: 0 - other, 1 - integral, 2 - sequence
  template <class T, int Kind> struct show_kind
  {
    static void run() { std::printf("?"); }
  };
  template <class T> struct show_kind<T, 1>
  {
    static void run() { std::printf("%ld", static_cast<long>(T::value)); }
  };
  template <class T> struct show_kind<T, 2>
  {
    static void run()
    {
      std::putchar('[');
      show_elements<T, mpl::empty<T>::type::value>::run();
      std::putchar(']');
    }
  };

  template <class T> struct kind_of
  {
    static const int value =
      mpl::is_sequence<T>::value ? 2 : (has_value_member<T>::value ? 1 : 0);
  };

  template <class T, class Evaluated> struct show_evaluated : show<Evaluated> {};
  template <class T> struct show_evaluated<T, T> :
    show_kind<T, kind_of<T>::value>
  {};

  template <class T, bool HasType> struct show_norm :
    show_evaluated<T, typename T::type>
  {};
  template <class T> struct show_norm<T, false> :
    show_kind<T, kind_of<T>::value>
  {};

  template <class T> struct show : show_norm<T, has_type_member<T>::value> {};

  template <> struct show<void> { static void run() { std::printf("?"); } };

  template <int Id> struct show<val<Id> >
  { static void run() { std::printf("val%d", Id); } };

  template <int Id, class A> struct show<term1<Id, A> >
  {
    static void run()
    { std::printf("(%d ", Id); show<A>::run(); std::putchar(')'); }
  };
  template <int Id, class A, class B> struct show<term2<Id, A, B> >
  {
    static void run()
    {
      std::printf("(%d ", Id); show<A>::run(); std::putchar(' ');
      show<B>::run(); std::putchar(')');
    }
  };
  template <int Id, class A, class B, class C>
  struct show<term3<Id, A, B, C> >
  {
    static void run()
    {
      std::printf("(%d ", Id); show<A>::run(); std::putchar(' ');
      show<B>::run(); std::putchar(' '); show<C>::run(); std::putchar(')');
    }
  };
  template <int Id, class A, class B, class C, class D>
  struct show<term4<Id, A, B, C, D> >
  {
    static void run()
    {
      std::printf("(%d ", Id); show<A>::run(); std::putchar(' ');
      show<B>::run(); std::putchar(' '); show<C>::run(); std::putchar(' ');
      show<D>::run(); std::putchar(')');
    }
  };

  template <int Id, class A0, class A1, class A2, class A3, class A4>
  struct show<term5<Id, A0, A1, A2, A3, A4> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5>
  struct show<term6<Id, A0, A1, A2, A3, A4, A5> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6>
  struct show<term7<Id, A0, A1, A2, A3, A4, A5, A6> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7>
  struct show<term8<Id, A0, A1, A2, A3, A4, A5, A6, A7> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(')'); }
  };

  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8>
  struct show<term9<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9>
  struct show<term10<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10>
  struct show<term11<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11>
  struct show<term12<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12>
  struct show<term13<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13>
  struct show<term14<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(' '); show<A13>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14>
  struct show<term15<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(' '); show<A13>::run(); std::putchar(' '); show<A14>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15>
  struct show<term16<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(' '); show<A13>::run(); std::putchar(' '); show<A14>::run(); std::putchar(' '); show<A15>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16>
  struct show<term17<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(' '); show<A13>::run(); std::putchar(' '); show<A14>::run(); std::putchar(' '); show<A15>::run(); std::putchar(' '); show<A16>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16, class A17>
  struct show<term18<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(' '); show<A13>::run(); std::putchar(' '); show<A14>::run(); std::putchar(' '); show<A15>::run(); std::putchar(' '); show<A16>::run(); std::putchar(' '); show<A17>::run(); std::putchar(')'); }
  };
  template <int Id, class A0, class A1, class A2, class A3, class A4, class A5, class A6, class A7, class A8, class A9, class A10, class A11, class A12, class A13, class A14, class A15, class A16, class A17, class A18>
  struct show<term19<Id, A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18> >
  {
    static void run()
    { std::printf("(%d", Id); std::putchar(' '); show<A0>::run(); std::putchar(' '); show<A1>::run(); std::putchar(' '); show<A2>::run(); std::putchar(' '); show<A3>::run(); std::putchar(' '); show<A4>::run(); std::putchar(' '); show<A5>::run(); std::putchar(' '); show<A6>::run(); std::putchar(' '); show<A7>::run(); std::putchar(' '); show<A8>::run(); std::putchar(' '); show<A9>::run(); std::putchar(' '); show<A10>::run(); std::putchar(' '); show<A11>::run(); std::putchar(' '); show<A12>::run(); std::putchar(' '); show<A13>::run(); std::putchar(' '); show<A14>::run(); std::putchar(' '); show<A15>::run(); std::putchar(' '); show<A16>::run(); std::putchar(' '); show<A17>::run(); std::putchar(' '); show<A18>::run(); std::putchar(')'); }
  };

  // ------------------------------------------------- showing input strings
  template <class S, bool Empty> struct put_chars
  {
    static void run()
    {
      const char c = static_cast<char>(mpl::front<S>::type::value);
      put_escaped(&c, 1);
      typedef typename mpl::pop_front<S>::type rest;
      put_chars<rest, mpl::empty<rest>::type::value>::run();
    }
  };
  template <class S> struct put_chars<S, true> { static void run() {} };

  template <class S> inline void put_input()
  {
    put_chars<S, mpl::empty<S>::type::value>::run();
  }

  template <class Pos> inline void put_pos()
  {
    std::printf(
      "%d:%d:%d",
      static_cast<int>(mp::get_line<Pos>::type::value),
      static_cast<int>(mp::get_col<Pos>::type::value),
      static_cast<int>(mp::get_prev_char<Pos>::type::value)
    );
  }

  // ---------------------------------------------------- showing results
  template <class R, bool Error> struct put_result
  {
    static void run()
    {
      std::printf("A|");
      show<typename mp::get_result<R>::type>::run();
      std::putchar('|');
      put_input<typename mp::get_remaining<R>::type>();
      std::putchar('|');
      put_pos<typename mp::get_position<R>::type>();
    }
  };
  template <class R> struct put_result<R, true>
  {
    static void run()
    {
      std::printf("R|");
      put_escaped(mp::get_message<R>::type::type::get_value());
      std::putchar('|');
      put_pos<typename mp::get_position<R>::type>();
    }
  };

  // One generated case: apply parser P to S starting at Pos
  template <class P, class S, class Pos> inline void parse()
  {
    typedef typename mpl::apply_wrap2<P, S, Pos>::type r;
    put_result<r, mp::is_error<r>::type::value>::run();
  }

  // ------------------------------------------------------------- strings
  template <class S> inline void put_c_str()
  {
    const unsigned long n = mpl::size<S>::type::value;
    put_escaped(mpl::c_str<S>::value, n);
    if (mpl::c_str<S>::value[n] != 0) std::printf("<not terminated>");
  }

  template <class S, class Want> inline void put_literal()
  {
    std::printf("%ld|", static_cast<long>(mpl::size<S>::type::value));
    put_c_str<S>();
    std::printf("|%d|", static_cast<int>(boost::is_same<S, Want>::value));
  }

  template <class S, bool Empty> struct put_ends
  {
    static void run()
    {
      std::printf(
        "%d,%d",
        static_cast<int>(mpl::front<S>::type::value),
        static_cast<int>(mpl::back<S>::type::value)
      );
    }
  };
  template <class S> struct put_ends<S, true>
  {
    static void run() { std::putchar('-'); }
  };

  template <class S> inline void put_str()
  {
    std::printf(
      "%ld,%d,",
      static_cast<long>(mpl::size<S>::type::value),
      static_cast<int>(mpl::empty<S>::type::value)
    );
    put_c_str<S>();
    std::putchar(',');
    put_ends<S, mpl::empty<S>::type::value>::run();
    std::putchar(';');
  }

  template <class I, class E, bool Done> struct put_forward
  {
    static void run()
    {
      const char c = static_cast<char>(mpl::deref<I>::type::value);
      put_escaped(&c, 1);
      typedef typename mpl::next<I>::type n;
      put_forward<n, E, mpl::equal_to<n, E>::type::value>::run();
    }
  };
  template <class I, class E> struct put_forward<I, E, true>
  {
    static void run() {}
  };

  template <class I, class B, bool Done> struct put_backward
  {
    static void run()
    {
      typedef typename mpl::prior<I>::type p;
      const char c = static_cast<char>(mpl::deref<p>::type::value);
      put_escaped(&c, 1);
      put_backward<p, B, mpl::equal_to<p, B>::type::value>::run();
    }
  };
  template <class I, class B> struct put_backward<I, B, true>
  {
    static void run() {}
  };

  // front/pop_front, iteration forwards and backwards, distance
  template <class S> inline void put_str_full()
  {
    typedef typename mpl::begin<S>::type b;
    typedef typename mpl::end<S>::type e;
    std::putchar('{');
    put_input<S>();
    std::putchar('/');
    put_forward<b, e, mpl::equal_to<b, e>::type::value>::run();
    std::putchar('/');
    put_backward<e, b, mpl::equal_to<b, e>::type::value>::run();
    std::printf("/%ld}", static_cast<long>(mpl::distance<b, e>::type::value));
  }

  template <class A, class B> inline void put_eq()
  {
    std::printf(
      "=%d%d",
      static_cast<int>(mpl::equal_to<A, B>::type::value),
      static_cast<int>(mpl::equal_to<B, A>::type::value)
    );
  }

  template <class S, int N> inline void put_at()
  {
    typedef typename mpl::begin<S>::type b;
    std::printf(
      "@%d,%d",
      static_cast<int>(mpl::at_c<S, N>::type::value),
      static_cast<int>(
        mpl::deref<typename mpl::advance<b, mpl::int_<N> >::type>::type::value)
    );
  }

  // ----------------------------------------------------------- iterators
  template <class I, bool Inside> struct put_deref
  {
    static void run()
    {
      std::printf("%d", static_cast<int>(mpl::deref<I>::type::value));
    }
  };
  template <class I> struct put_deref<I, false>
  {
    static void run() { std::putchar('-'); }
  };

  // S: the string, I: an iterator of it, O: the iterator before the last step
  template <class S, class I, class O, bool Inside> inline void put_iter()
  {
    typedef typename mpl::begin<S>::type b;
    typedef typename mpl::end<S>::type e;
    std::printf(
      "(%ld,%ld,%ld,%ld,%ld,%d%d%d%d%d%d,",
      static_cast<long>(mpl::distance<b, I>::type::value),
      static_cast<long>(mpl::distance<I, b>::type::value),
      static_cast<long>(mpl::distance<I, e>::type::value),
      static_cast<long>(mpl::distance<O, I>::type::value),
      static_cast<long>(mpl::distance<I, O>::type::value),
      static_cast<int>(mpl::equal_to<I, b>::type::value),
      static_cast<int>(mpl::equal_to<e, I>::type::value),
      static_cast<int>(mpl::equal_to<I, O>::type::value),
      static_cast<int>(mpl::equal_to<I, I>::type::value),
      static_cast<int>(mpl::equal_to<I, mpl::int_<13> >::type::value),
      static_cast<int>(mpl::equal_to<mpl::int_<13>, I>::type::value)
    );
    put_deref<I, Inside>::run();
    std::putchar(')');
  }

  // equality with something that is not a string, and MPL algorithms
  template <class S> inline void put_str_foreign()
  {
    std::printf(
      "%d%d%d%d",
      static_cast<int>(mpl::equal_to<S, mpl::int_<13> >::type::value),
      static_cast<int>(mpl::equal_to<mpl::int_<13>, S>::type::value),
      static_cast<int>(mpl::equal_to<S, mpl::char_<'a'> >::type::value),
      static_cast<int>(mpl::is_sequence<S>::type::value)
    );
    typedef typename mpl::fold<
      S, mp::string<>, mpl::push_front<mpl::_1, mpl::_2> >::type rev;
    put_str<rev>();
  }

  // ----------------------------------------------------------- positions
  template <class A, class B> inline void put_six()
  {
    std::printf(
      "%d%d%d%d%d%d",
      static_cast<int>(mpl::equal_to<A, B>::type::value),
      static_cast<int>(mpl::not_equal_to<A, B>::type::value),
      static_cast<int>(mpl::less<A, B>::type::value),
      static_cast<int>(mpl::less_equal<A, B>::type::value),
      static_cast<int>(mpl::greater<A, B>::type::value),
      static_cast<int>(mpl::greater_equal<A, B>::type::value)
    );
  }
  template <class A, class B> inline void put_cmp()
  {
    put_six<A, B>();
    put_six<B, A>();
    std::putchar(' ');
  }
  template <class P, class S, class Pos> inline void parse_cmp()
  {
    typedef typename mpl::apply_wrap2<P, S, Pos>::type r;
    put_six<Pos, typename mp::get_position<r>::type>();
  }

  // ------------------------------------------------------------ outcomes
  struct poison;
  template <class O> inline void put_outcome()
  {
    std::printf(
      "%d%d%d%c",
      static_cast<int>(mp::is_error<O>::type::value),
      static_cast<int>(mp::is_error<>::type::template apply<O>::type::value),
      static_cast<int>(mpl::apply_wrap1<mp::is_error<>, O>::type::value),
      boost::is_same<typename mpl::tag<typename O::type>::type, mp::fail_tag>::value
        ? 'F'
        : (boost::is_same<
            typename mpl::tag<typename O::type>::type, mp::accept_tag>::value
              ? 'A' : '?')
    );
    put_result<O, mp::is_error<O>::type::value>::run();
  }
  template <class O, class Alt> inline void put_unless()
  {
    typedef typename mp::unless_error<O, Alt>::type r;
    put_result<r, mp::is_error<r>::type::value>::run();
  }

  inline void put_int(long v_) { std::printf("%ld ", v_); }

  template <int L, int C, int P> struct pos :
    mp::source_position<mpl::int_<L>, mpl::int_<C>, mpl::char_<P> >
  {
    typedef
      mp::source_position<mpl::int_<L>, mpl::int_<C>, mpl::char_<P> > type;
  };
}

// the user defined sequence's MPL interface
namespace boost
{
  namespace mpl
  {
    template <> struct empty_impl<mpv::cons_tag>
    {
      template <class S> struct apply : bool_<false> {};
    };
    template <>
    struct empty_impl<mpv::cons_tag>::apply<mpv::nil> : bool_<true> {};
    template <> struct front_impl<mpv::cons_tag>
    {
      template <class S> struct apply
      { typedef char_<static_cast<char>(S::head)> type; };
    };
    template <> struct pop_front_impl<mpv::cons_tag>
    {
      template <class S> struct apply { typedef typename S::tail type; };
    };
    template <> struct empty_impl<mpv::slim_tag>
    {
      template <class S> struct apply : bool_<false> {};
    };
    template <>
    struct empty_impl<mpv::slim_tag>::apply<mpv::slim_end> : bool_<true> {};
    template <> struct front_impl<mpv::slim_tag>
    {
      template <class S> struct apply
      { typedef char_<static_cast<char>(S::head)> type; };
    };
    template <> struct pop_front_impl<mpv::slim_tag>
    {
      template <class S> struct apply { typedef typename S::tail type; };
    };
    template <> struct begin_impl<mpv::cons_tag>
    {
      template <class S> struct apply
      { typedef mpv::cons_iterator<S> type; };
    };
    template <> struct end_impl<mpv::cons_tag>
    {
      template <class S> struct apply
      { typedef mpv::cons_iterator<mpv::nil> type; };
    };
    template <int C, class T> struct next<mpv::cons_iterator<mpv::cons<C, T> > >
    { typedef mpv::cons_iterator<T> type; };
    template <int C, class T> struct deref<mpv::cons_iterator<mpv::cons<C, T> > >
    { typedef char_<static_cast<char>(C)> type; };
  }
}

#endif

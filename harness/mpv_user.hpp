// Building blocks as a user could write them: only what the documented
// concepts (parser, metafunction class, predicate, boxed value, error message)
// ask for.
#ifndef MPV_USER_HPP
#define MPV_USER_HPP

#include "mpv_base.hpp"
#include <boost/mpl/quote.hpp>

namespace mpv
{
  namespace user
  {
    // ------------------------------------------------------- boxed values
    template <class T, T V> struct box
    {
      typedef box type;
      static const T value = V;
    };
    template <class T, T V> const T box<T, V>::value;
    // a nullary metafunction returning a boxed value
    template <class T, T V> struct lazy_box { typedef box<T, V> type; };

    // ------------------------------------------------------------ parsers
    // only the result of apply is an outcome
    template <class P> struct plain
    {
      typedef plain type;
      template <class S, class Pos> struct apply
      { typedef typename P::template apply<S, Pos>::type type; };
    };
    // builds the outcome again
    template <bool Error, class R> struct rebuilt :
      mp::accept<
        typename mp::get_result<R>::type,
        typename mp::get_remaining<R>::type,
        typename mp::get_position<R>::type
      >
    {};
    template <class R> struct rebuilt<true, R> :
      mp::reject<
        typename mp::get_message<R>::type,
        typename mp::get_position<R>::type
      >
    {};
    template <class P> struct rebuild
    {
      typedef rebuild type;
      template <class S, class Pos> struct apply
      {
        typedef typename P::template apply<S, Pos>::type outcome;
        typedef
          typename rebuilt<mp::is_error<outcome>::type::value, outcome>::type
          type;
      };
    };
    // wants its arguments evaluated
    template <class T> struct same_or_lazy { typedef T type; };
    template <class P> struct inherits
    {
      typedef inherits type;
      template <class S, class Pos> struct apply :
        P::template apply<S, Pos>
      {};
    };
    // a parser that is itself built at compile time from two others
    template <class P> struct by_length
    {
      typedef by_length type;
      template <bool, class S, class Pos> struct impl
      { typedef typename P::template apply<S, Pos>::type type; };
      template <class S, class Pos> struct impl<true, S, Pos> :
        P::template apply<S, Pos>
      {};
      template <class S, class Pos> struct apply
      {
        typedef
          typename impl<mpl::empty<S>::type::value, S, Pos>::type
          type;
      };
    };

    // ---------------------------------------------------------- functions
    template <int Id> struct f1_inherits
    {
      typedef f1_inherits type;
      template <class A> struct apply : term1<Id, typename A::type> {};
    };
    template <int Id> struct f2_inherits
    {
      typedef f2_inherits type;
      template <class A, class B>
      struct apply : term2<Id, typename A::type, typename B::type> {};
    };
    template <int Id> struct bind1
    { template <class A> struct t { typedef term1<Id, typename A::type> type; }; };
    template <int Id> struct bind2
    {
      template <class A, class B>
      struct t { typedef term2<Id, typename A::type, typename B::type> type; };
    };
    template <class Id, class A, class B> struct act2
    { typedef term2<Id::value, typename A::type, typename B::type> type; };

    // functions that look at the argument itself, without evaluating it
    template <class T> struct evaluated
    {
      static const bool value =
        kind_of<T>::value != 0 || boost::is_same<T, typename T::type>::value;
    };
    template <> struct evaluated<void> { static const bool value = true; };
    template <int Id> struct f1_strict
    {
      typedef f1_strict type;
      template <class A> struct apply
      {
        typedef
          term1<(evaluated<A>::value ? Id : Id + 1000), typename A::type> type;
      };
    };
    template <int Id> struct f2_strict
    {
      typedef f2_strict type;
      template <class A, class B> struct apply
      {
        typedef
          term2<
            (evaluated<A>::value ?
              (evaluated<B>::value ? Id : Id + 2000) : Id + 1000),
            typename A::type, typename B::type
          >
          type;
      };
    };

    // --------------------------------------------------------- predicates
    template <class P> struct p_plain
    {
      typedef p_plain type;
      template <class C> struct apply
      { typedef typename P::template apply<C>::type type; };
    };
    template <class P> struct p_boxed
    {
      typedef p_boxed type;
      template <class C> struct apply
      {
        static const bool value = P::template apply<C>::type::value;
        typedef apply type;
      };
    };
    // looks at the argument itself
    template <class P> struct p_strict
    {
      typedef p_strict type;
      template <class C> struct apply
      {
        static const bool result = P::template apply<C>::type::value;
        typedef mpl::bool_<(evaluated<C>::value ? result : !result)> type;
      };
    };

    // for lambda expressions
    template <class P, class C> struct holds
    { typedef typename P::template apply<C>::type type; };

    // ----------------------------------------------------- error functions
    // for lambda expressions
    template <class Id, class M> struct wrapped
    { typedef wrapped_msg<Id::value, typename M::type> type; };
    template <template <int> class F, int Id> struct e_strict
    {
      typedef e_strict type;
      template <class E> struct apply
      {
        typedef
          typename F<
            (boost::is_same<E, typename E::type>::value ? Id : Id + 1000)
          >::template apply<E>::type
          type;
      };
    };
    template <class F> struct e_plain
    {
      typedef e_plain type;
      template <class E> struct apply
      { typedef typename F::template apply<E>::type type; };
    };
  }
}

#endif

// Support code for the header checks: to be included after the metaparse
// headers, brings in nothing of Boost.
#ifndef MPV_MINI_HPP
#define MPV_MINI_HPP

#include <cstdio>
#include <string>

namespace boost { namespace metaparse {} }

namespace mpv
{
  namespace mp = boost::metaparse;

  template <class A, class B> struct same { static const bool value = false; };
  template <class A> struct same<A, A> { static const bool value = true; };

  inline void put_escaped(const std::string& s_)
  {
    for (std::string::size_type i = 0; i != s_.size(); ++i)
    {
      const unsigned char c = static_cast<unsigned char>(s_[i]);
      if (c > 32 && c < 127 && c != '\\') std::putchar(c);
      else std::printf("\\%02x", c);
    }
  }
  inline void put_int(long v_) { std::printf("%ld", v_); }

  template <int Id> struct val { typedef val type; };
  template <int Id, class A> struct term1 { typedef term1 type; };
  template <int Id, class A, class B> struct term2 { typedef term2 type; };
  template <int Id> struct fun1
  {
    typedef fun1 type;
    template <class A> struct apply { typedef term1<Id, typename A::type> type; };
  };
  template <int Id> struct fun2
  {
    typedef fun2 type;
    template <class A, class B>
    struct apply { typedef term2<Id, typename A::type, typename B::type> type; };
  };
  template <int Id> struct tmpl
  {
    template <class A> struct t1 { typedef term1<Id, typename A::type> type; };
    template <class A, class B>
    struct t2 { typedef term2<Id, typename A::type, typename B::type> type; };
  };
  template <int Id> struct msg
  {
    typedef msg type;
    static std::string get_value()
    {
      char buf[32];
      std::sprintf(buf, "user message %d", Id);
      return buf;
    }
  };
  template <bool B> struct truth
  {
    typedef truth type;
    static const bool value = B;
    typedef bool value_type;
  };
  template <bool B> struct pred_const
  {
    typedef pred_const type;
    template <class> struct apply : truth<B> {};
  };
  template <int Lo, int Hi> struct pred_range
  {
    typedef pred_range type;
    template <class C> struct apply :
      truth<(Lo <= C::type::value && C::type::value <= Hi)>
    {};
  };
  template <int M, int R> struct pred_mod
  {
    typedef pred_mod type;
    template <class C> struct apply :
      truth<(((int)C::type::value % M + M) % M == R)>
    {};
  };

  // boxed values
  template <class T> struct show
  { static void run() { std::printf("%ld", static_cast<long>(T::value)); } };
  template <int Id> struct show<val<Id> >
  { static void run() { std::printf("val%d", Id); } };
  template <int Id, class A> struct show<term1<Id, A> >
  {
    static void run()
    { std::printf("(%d ", Id); show<A>::run(); std::printf(")"); }
  };
  template <int Id, class A, class B> struct show<term2<Id, A, B> >
  {
    static void run()
    {
      std::printf("(%d ", Id); show<A>::run(); std::printf(" ");
      show<B>::run(); std::printf(")");
    }
  };
  template <class T, bool Show> struct show_if : show<typename T::type> {};
  template <class T> struct show_if<T, false>
  { static void run() { std::printf("*"); } };

#ifdef MPV_MINI_POS
  template <class Pos> inline void put_pos()
  {
    std::printf(
      "%d:%d:%d",
      static_cast<int>(mp::get_line<Pos>::type::value),
      static_cast<int>(mp::get_col<Pos>::type::value),
      static_cast<int>(mp::get_prev_char<Pos>::type::value)
    );
  }

#endif

#ifdef MPV_MINI_USER
  // parsers written by the user, on a sequence of the user's own
  struct done { typedef done type; };
  template <class Rest> struct cell { typedef cell type; };
  template <int Id> struct yes
  {
    typedef yes type;
    template <class S, class Pos> struct apply : mp::accept<val<Id>, S, Pos> {};
  };
  template <int Id> struct no
  {
    typedef no type;
    template <class S, class Pos> struct apply : mp::reject<msg<Id>, Pos> {};
  };
  template <class S, class Pos> struct eat_impl;
  template <class Pos> struct eat_impl<done, Pos> :
    mp::reject<msg<0>, Pos>
  {};
  template <class Rest, class Pos> struct eat_impl<cell<Rest>, Pos> :
    mp::accept<val<1>, Rest, Pos>
  {};
  struct eat
  {
    typedef eat type;
    template <class S, class Pos> struct apply : eat_impl<typename S::type, Pos> {};
  };
#endif

#ifdef MPV_MINI_PARSE
  template <class R, class Rem, bool Show, bool Error> struct put_result
  {
    static void run()
    {
      std::printf("A|");
      show_if<typename mp::get_result<R>::type, Show>::run();
      std::printf(
        "|%d|",
        static_cast<int>(same<typename mp::get_remaining<R>::type, Rem>::value)
      );
      put_pos<typename mp::get_position<R>::type>();
    }
  };
  template <class R, class Rem, bool Show>
  struct put_result<R, Rem, Show, true>
  {
    static void run()
    {
      std::printf("R|");
      put_escaped(mp::get_message<R>::type::type::get_value());
      std::printf("|");
      put_pos<typename mp::get_position<R>::type>();
    }
  };
  // Rem: the expected remaining text
  template <class P, class S, class Pos, class Rem, bool Show> inline void parse()
  {
    typedef typename P::template apply<S, Pos>::type r;
    put_result<r, Rem, Show, mp::is_error<r>::type::value>::run();
  }
#endif
}

#endif

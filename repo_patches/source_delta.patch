From f0a6b330f969583ef3b803c7390a1d17f07fc737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 001/267] fix: measure atomic wait timeouts with steady_clock

high_resolution_clock is the system clock with libstdc++, so setting the wall
clock made the timed waits report a timeout early or wait far too long.
---
 include/daw/daw_atomic_wait.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index ef6387e..718b49f 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -42,7 +42,7 @@ namespace daw::atomic_impl {
 	                   Fn<bool( )> auto &&func,
 	                   std::chrono::nanoseconds max_elapsed ) {
 
-		auto const start_time = std::chrono::high_resolution_clock::now( );
+		auto const start_time = std::chrono::steady_clock::now( );
 		int count = 0;
 		while( true ) {
 			if( func( ) ) {
@@ -53,7 +53,7 @@ namespace daw::atomic_impl {
 				continue;
 			}
 			auto const elapsed =
-			  std::chrono::high_resolution_clock::now( ) - start_time;
+			  std::chrono::steady_clock::now( ) - start_time;
 			if( elapsed >= max_elapsed ) {
 				return false;
 			}
@@ -93,7 +93,7 @@ namespace daw {
 	                 std::chrono::duration<Rep, Period> const &rel_time,
 	                 std::memory_order order = std::memory_order_acquire ) {
 		auto const final_time =
-		  std::chrono::high_resolution_clock::now( ) + rel_time;
+		  std::chrono::steady_clock::now( ) + rel_time;
 		auto current =
 		  std::atomic_load_explicit( object, std::memory_order_acquire );
 
@@ -106,7 +106,7 @@ namespace daw {
 			if( current != old ) {
 				return true;
 			}
-			auto const current_time = std::chrono::high_resolution_clock::now( );
+			auto const current_time = std::chrono::steady_clock::now( );
 			auto const is_timed_out = current_time >= final_time;
 			return is_timed_out;
 		};
@@ -212,7 +212,7 @@ namespace daw {
 	                    std::chrono::duration<Rep, Period> const &rel_time,
 	                    std::memory_order order = std::memory_order_acquire ) {
 		auto const final_time =
-		  std::chrono::high_resolution_clock::now( ) + rel_time;
+		  std::chrono::steady_clock::now( ) + rel_time;
 		auto current_value =
 		  std::atomic_load_explicit( object, std::memory_order_acquire );
 
@@ -227,7 +227,7 @@ namespace daw {
 			if( pred_result ) {
 				return true;
 			}
-			auto const current_time = std::chrono::high_resolution_clock::now( );
+			auto const current_time = std::chrono::steady_clock::now( );
 			auto const is_timed_out = current_time >= final_time;
 			return is_timed_out;
 		};
-- 
2.43.0


From cb8e462053b6321eb6b323317f2f4b0911ac4617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:52 +0000
Subject: [PATCH 002/267] fix: atomic_wait_if must read the deciding value with
 the requested order

The value that satisfied the predicate was read relaxed, so data published
before it was not ordered before the return of the wait.
---
 include/daw/daw_atomic_wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index 718b49f..7a2d868 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -176,7 +176,7 @@ namespace daw {
 		auto const &const_current = current;
 		while( not predicate( const_current ) ) {
 			std::atomic_wait_explicit( object, current, order );
-			current = std::atomic_load_explicit( object, std::memory_order_relaxed );
+			current = std::atomic_load_explicit( object, order );
 		}
 	}
 
-- 
2.43.0


From 946d0b76e95b310f4af9f676159c1dd7b5c25dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:55 +0000
Subject: [PATCH 003/267] fix: assigning a countable_resource_t does not create
 an object

The assignment operator counted one object too many and had no return
statement, so every use of it was undefined behaviour.
---
 include/daw/daw_countable_resource.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..c6512b2 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -26,9 +26,8 @@ namespace daw {
 			++m_resource_count;
 		}
 
-		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
-		}
+		countable_resource_t &
+		operator=( countable_resource_t const & ) noexcept = default;
 
 		~countable_resource_t( ) {
 			--m_resource_count;
-- 
2.43.0


From de7e7e0aece3bb14bae98d34d41a55c478354fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 004/267] fix: unique_resource::reset() must disengage after
 deleting

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..87dd7d2 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -52,6 +52,7 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value = std::nullopt;
 			}
 		}
 
-- 
2.43.0


From 21fb338ecc64fd2fb6446781b8e2b7d95747f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 005/267] fix: move assigning from an empty unique_resource
 read a disengaged optional

---
 include/daw/daw_unique_resource.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 87dd7d2..a3dbba7 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -27,7 +27,11 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( rhs.value ) {
+				reset( rhs.release( ) );
+			} else {
+				reset( );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From b94c4b004b09aa0d0c9e0da3c511c21a26444400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 006/267] fix: a moved from ScopeGuard must not run its handler

---
 include/daw/daw_scope_guard.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..c70ec08 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -40,8 +40,24 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function( std::move( other.m_function ) ) {
+			// a moved from optional is still engaged
+			other.m_function.reset( );
+		}
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard &
+		operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> and
+		  std::is_nothrow_move_assignable_v<FunctionType> ) {
+			if( this != &rhs ) {
+				m_function = std::move( rhs.m_function );
+				rhs.m_function.reset( );
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From 75b5ba0a360e39da0383ccfc550f3159c2fd1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 007/267] fix: ScopeGuard::dismiss modifies the guard and
 cannot be const

---
 include/daw/daw_scope_guard.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index c70ec08..d957618 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -89,8 +89,9 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
-			m_function = std::optional<FunctionType>( );
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept(
+		  std::is_nothrow_destructible_v<FunctionType> ) {
+			m_function = std::nullopt;
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 5d4852ea7c8233e46ec61b2325fc9800dd83a2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 008/267] fix: on_exit_success must only look at exceptions
 raised inside its scope

---
 include/daw/daw_scope_guard.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index d957618..e66e5ec 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -107,9 +107,24 @@ namespace daw {
 		return ScopeGuard<FunctionType>( std::move( f ) );
 	}
 
+	namespace scope_guard_impl {
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr int
+		uncaught_exceptions( ) noexcept {
+#if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
+			if( DAW_IS_CONSTANT_EVALUATED( ) ) {
+				return 0;
+			}
+#endif
+			return std::uncaught_exceptions( );
+		}
+	} // namespace scope_guard_impl
+
 	template<typename Handler>
 	class on_exit_success {
 		Handler on_exit_handler;
+#if not defined( DAW_DONT_USE_EXCEPTIONS )
+		int m_uncaught_on_entry = scope_guard_impl::uncaught_exceptions( );
+#endif
 
 	public:
 		DAW_ATTRIB_INLINE constexpr on_exit_success( Handler &&h ) noexcept(
@@ -128,7 +143,7 @@ namespace daw {
 			} else {
 #endif
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-				if( std::uncaught_exceptions( ) == 0 ) {
+				if( std::uncaught_exceptions( ) <= m_uncaught_on_entry ) {
 #endif
 					on_exit_handler( );
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-- 
2.43.0


From e7554ff908fb79f942e46727573f08ffb60bdba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 009/267] fix: rc_ptr::reset() must disengage while other
 owners remain

---
 include/daw/daw_ref_counted_pointer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..c868351 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -136,9 +136,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto old_ptr = daw::exchange( m_pointer, nullptr );
-				auto old_ref = daw::exchange( m_ref_count, nullptr );
+			auto old_ptr = daw::exchange( m_pointer, nullptr );
+			auto old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
@@ -309,9 +309,9 @@ namespace daw {
 				return;
 			}
 			assert( m_ref_count );
-			if( --ref_count( ) == 0 ) {
-				auto *old_ptr = daw::exchange( m_pointer, nullptr );
-				auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			auto *old_ptr = daw::exchange( m_pointer, nullptr );
+			auto *old_ref = daw::exchange( m_ref_count, nullptr );
+			if( --*old_ref == 0 ) {
 				delete old_ref;
 				Deleter{ }( old_ptr );
 			}
-- 
2.43.0


From c4727cca7cd03508c40c849acb39b8b4dcf72c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 010/267] fix: rc_ptr assignment must acquire before it
 releases

---
 include/daw/daw_ref_counted_pointer.h | 32 ++++++++++-----------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index c868351..13ec680 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -87,13 +87,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				if( rhs ) {
-					m_pointer = rhs.m_pointer;
-					m_ref_count = rhs.m_ref_count;
-					assert( m_ref_count );
-					++ref_count( );
-				}
+				// rhs may be owned by what we release
+				rc_ptr tmp( rhs );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -105,9 +101,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
+				// rhs may be owned by what we release
+				rc_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -259,13 +255,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr const &rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = rhs.m_pointer;
-				m_ref_count = rhs.m_ref_count;
-				if( m_pointer ) {
-					assert( m_ref_count );
-					++ref_count( );
-				}
+				// rhs may be owned by what we release
+				rc_ptr tmp( rhs );
+				swap( tmp );
 			}
 			return *this;
 		}
@@ -277,9 +269,9 @@ namespace daw {
 		constexpr rc_ptr &
 		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
 			if( this != &rhs ) {
-				reset( );
-				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
-				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
+				// rhs may be owned by what we release
+				rc_ptr tmp( std::move( rhs ) );
+				swap( tmp );
 			}
 			return *this;
 		}
-- 
2.43.0


From 12fda992e8389e2d482c81f9a6dcfd206658a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 011/267] fix: rc_ptr must not terminate or leak when its count
 cannot be allocated

---
 include/daw/daw_ref_counted_pointer.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index 13ec680..ec29ee8 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -47,6 +47,17 @@ namespace daw {
 		  std::void_t<typename std::remove_reference_t<Deleter>::pointer>> {
 			using type = typename Deleter::pointer;
 		};
+
+		template<typename Pointer, typename Deleter>
+		struct release_on_failure {
+			Pointer ptr;
+
+			DAW_CX_DTOR ~release_on_failure( ) {
+				if( ptr ) {
+					Deleter{ }( ptr );
+				}
+			}
+		};
 	} // namespace rc_ptr_impl
 
 	template<typename T, typename Deleter = default_pointer_deleter<T>>
@@ -117,12 +128,14 @@ namespace daw {
 			reset( );
 		}
 
-		explicit constexpr rc_ptr( pointer ptr ) noexcept
+		explicit constexpr rc_ptr( pointer ptr )
 		  : m_pointer( ptr ) {
 			if( not ptr ) {
 				return;
 			}
+			auto guard = rc_ptr_impl::release_on_failure<pointer, Deleter>{ ptr };
 			m_ref_count = new std::size_t{ 1 };
+			guard.ptr = nullptr;
 		}
 
 		explicit DAW_CONSTEVAL rc_ptr( std::nullptr_t ) noexcept {}
@@ -285,12 +298,14 @@ namespace daw {
 			reset( );
 		}
 
-		explicit constexpr rc_ptr( pointer ptr ) noexcept
+		explicit constexpr rc_ptr( pointer ptr )
 		  : m_pointer( ptr ) {
 			if( not ptr ) {
 				return;
 			}
+			auto guard = rc_ptr_impl::release_on_failure<pointer, Deleter>{ ptr };
 			m_ref_count = new std::size_t{ 1 };
+			guard.ptr = nullptr;
 		}
 
 		explicit DAW_CONSTEVAL rc_ptr( std::nullptr_t ) noexcept {}
-- 
2.43.0


From 0bdd8434285b09cdda5fe4a44df0d85a677125ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 012/267] fix: unique_ptr move assignment must take the new
 pointer before deleting the old one

---
 include/daw/daw_unique_ptr.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..c6d66a6 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -145,8 +145,10 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
+				// rhs may be owned by what we release
+				pointer p = rhs.release( );
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = p;
 			}
 			return *this;
 		}
@@ -158,8 +160,10 @@ namespace daw {
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
 			if( this != &rhs ) {
+				// rhs may be owned by what we release
+				pointer p = rhs.release( );
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = p;
 			}
 			return *this;
 		}
@@ -300,8 +304,10 @@ namespace daw {
 
 		constexpr unique_ptr &operator=( unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
+				// rhs may be owned by what we release
+				pointer p = rhs.release( );
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = p;
 			}
 			return *this;
 		}
@@ -313,8 +319,10 @@ namespace daw {
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
 			if( this != &rhs ) {
+				// rhs may be owned by what we release
+				pointer p = rhs.release( );
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = p;
 			}
 			return *this;
 		}
-- 
2.43.0


From 0045bfb761b87e4c1432f04005af00720500de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 013/267] fix: moving a maybe_unique_ptr must keep whether the
 pointer is owned

---
 include/daw/daw_maybe_unique_ptr.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..f80b71b 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,14 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
 		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  , m_ptr( std::move( other.m_ptr ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -98,9 +98,9 @@ namespace daw {
 
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
-				reset( );
-				m_ptr = rhs.release( );
-				m_owned = std::exchange( rhs.m_owned, true );
+				bool const owned = rhs.m_owned;
+				pointer p = rhs.release( );
+				reset( p, owned );
 			}
 			return *this;
 		}
@@ -112,8 +112,9 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			m_ptr = std::move( rhs.m_ptr );
-			m_owned = std::exchange( rhs.m_owned, true );
+			bool const owned = rhs.m_owned;
+			pointer p = rhs.release( );
+			reset( p, owned );
 			return *this;
 		}
 
@@ -123,8 +124,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
-			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
+			reset( rhs.release( ), true );
 			return *this;
 		}
 
-- 
2.43.0


From fb9a8a2ba9a0dec8cb7f738e92f0bec571d6c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 014/267] fix: maybe_unique_ptr::reset( p ) deleted the pointer
 it was given

---
 include/daw/daw_maybe_unique_ptr.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index f80b71b..a38fedc 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -166,12 +166,8 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
-				(void)m_ptr.release( );
-			}
-			m_ptr.reset( std::move( p ) );
+			reset( );
+			m_ptr = daw::unique_ptr<T, Deleter>( std::move( p ) );
 			m_owned = owned;
 		}
 
-- 
2.43.0


From 504c66e65328feeb1bbdab3237972f9fb6ee4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:07 +0000
Subject: [PATCH 015/267] fix: on_exit_success must compile where scope guards
 are not constexpr

---
 include/daw/daw_scope_guard.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index e66e5ec..019837b 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -108,7 +108,7 @@ namespace daw {
 	}
 
 	namespace scope_guard_impl {
-		[[nodiscard]] DAW_ATTRIB_INLINE constexpr int
+		[[nodiscard]] DAW_ATTRIB_INLINE DAW_SG_CXDTOR int
 		uncaught_exceptions( ) noexcept {
 #if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
 			if( DAW_IS_CONSTANT_EVALUATED( ) ) {
-- 
2.43.0


From 1a108abe1ef9afc7801647c81dd6e90f95637efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:07 +0000
Subject: [PATCH 016/267] fix: a handler that throws in run_now must not run
 again

---
 include/daw/daw_scope_guard.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 019837b..e2362be 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -77,8 +77,16 @@ namespace daw {
 		DAW_ATTRIB_INLINE constexpr void
 		run_now( ) noexcept( std::is_nothrow_invocable_v<FunctionType> ) {
 			assert( m_function );
+			// the handler must not run again if it throws
+			struct cancel_on_exit_t {
+				ScopeGuard &self;
+
+				DAW_SG_CXDTOR ~cancel_on_exit_t( ) noexcept(
+				  std::is_nothrow_destructible_v<FunctionType> ) {
+					self.cancel( );
+				}
+			} cancel_on_exit{ *this };
 			(void)( *m_function )( );
-			cancel( );
 		}
 
 		DAW_ATTRIB_INLINE DAW_SG_CXDTOR ~ScopeGuard( ) noexcept(
-- 
2.43.0


From e5f0bee0b0911973356b124295d03ccfe2de62b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:03 +0000
Subject: [PATCH 017/267] fix: vector::insert, emplace and swap named things
 that do not exist

---
 include/daw/split_buffer.h | 22 +++++++++++-----------
 include/daw/vector.h       |  7 +++----
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..513174d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -158,7 +158,7 @@ namespace daw {
 			end_ = c.end_;
 			end_cap( ) = c.end_cap( );
 			move_assign_alloc(
-			  c, bool_constant<
+			  c, std::bool_constant<
 			       alloc_traits::propagate_on_container_move_assignment::value>{ } );
 			c.first_ = nullptr;
 			c.begin_ = nullptr;
@@ -226,8 +226,8 @@ namespace daw {
 		constexpr void reserve( size_type n ) {
 			if( n < capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..22b0a75 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -664,10 +664,9 @@ namespace daw {
 				if( p == m_end ) {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
-					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					auto tmp = value_type( DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
-					*p = std::move( tmp.get( ) );
+					*p = std::move( tmp );
 				}
 			} else {
 				allocator_type &a = alloc( );
@@ -927,7 +926,7 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
+			si_impl::swap_allocator( alloc( ), other.alloc( ),
 			                std::bool_constant<
 			                  alloc_traits::propagate_on_container_swap::value>{ } );
 		}
-- 
2.43.0


From ac6833de16e52a9d263e1ade23ab52cc29c3e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:55 +0000
Subject: [PATCH 018/267] fix: a vector constructor that throws must release
 what it has built

Delegate to the allocator constructor so that the destructor runs when an
element cannot be constructed.
---
 include/daw/vector.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 22b0a75..8580bdb 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -142,7 +142,8 @@ namespace daw {
 		  noexcept( std::is_nothrow_copy_constructible<allocator_type>::value )
 		  : m_endcap_( nullptr, a ) {}
 
-		explicit constexpr vector( size_type n ) {
+		explicit constexpr vector( size_type n )
+		  : vector( allocator_type( ) ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -151,14 +152,15 @@ namespace daw {
 		}
 
 		explicit constexpr vector( size_type n, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n > 0 ) {
 				vallocate( n );
 				construct_at_end( n );
 			}
 		}
 
-		explicit constexpr vector( size_type n, value_type const &x ) {
+		explicit constexpr vector( size_type n, value_type const &x )
+		  : vector( allocator_type( ) ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -168,7 +170,7 @@ namespace daw {
 
 		explicit constexpr vector( size_type n, value_type const &x,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -177,7 +179,8 @@ namespace daw {
 		}
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
-		                           auto operation ) {
+		                           auto operation )
+		  : vector( allocator_type( ) ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -186,7 +189,7 @@ namespace daw {
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
 		                           auto operation, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -196,7 +199,8 @@ namespace daw {
 		template<input_iterator InputIterator>
 		requires( constructible_from<value_type,
 		                             iter_reference_type<InputIterator>> ) //
-		  explicit constexpr vector( InputIterator first, InputIterator last ) {
+		  explicit constexpr vector( InputIterator first, InputIterator last )
+		  : vector( allocator_type( ) ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -210,7 +214,7 @@ namespace daw {
 		                             iter_reference_type<InputIterator>> ) //
 		  explicit constexpr vector( InputIterator first, InputIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -223,7 +227,8 @@ namespace daw {
 		requires( not has_slow_distance_v<ForwardIterator> and
 		          constructible_from<value_type,
 		                             iter_reference_type<ForwardIterator>> ) //
-		  explicit constexpr vector( ForwardIterator first, ForwardIterator last ) {
+		  explicit constexpr vector( ForwardIterator first, ForwardIterator last )
+		  : vector( allocator_type( ) ) {
 
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
@@ -238,7 +243,7 @@ namespace daw {
 		                             iter_reference_type<ForwardIterator>> ) //
 		  explicit constexpr vector( ForwardIterator first, ForwardIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
 				vallocate( n );
@@ -254,8 +259,8 @@ namespace daw {
 		}
 
 		constexpr vector( vector const &x )
-		  : m_endcap_( nullptr, alloc_traits::select_on_container_copy_construction(
-		                          x.alloc( ) ) ) {
+		  : vector( alloc_traits::select_on_container_copy_construction(
+		      x.alloc( ) ) ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -266,7 +271,7 @@ namespace daw {
 
 		explicit constexpr vector( vector const &x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -285,7 +290,7 @@ namespace daw {
 
 		explicit constexpr vector( std::initializer_list<value_type> il,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( il.size( ) > 0 ) {
 				vallocate( il.size( ) );
@@ -305,7 +310,7 @@ namespace daw {
 
 		explicit constexpr vector( vector &&x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( a == x.alloc( ) ) {
 				m_begin = x.m_begin;
-- 
2.43.0


From 5ab77835d1aabba8c93c23c8e36bd342347c36ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:33 +0000
Subject: [PATCH 019/267] fix: vector::resize_and_overwrite destroyed elements
 that do not exist

When the operation made fewer than n elements everything above the new end was
destroyed downwards from an end below it; when it made n, elements that the
resize dropped were not destroyed.
---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 8580bdb..456f313 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -846,7 +846,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -873,7 +873,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From 927f372f00c73c75e6feff033e3fa9d271dd764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:28 +0000
Subject: [PATCH 020/267] fix: block_append_from must append what it reads

The fill loop never ran, so every block was left uninitialised and the loop
over the range never ended.
---
 include/daw/vector.h | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 456f313..46383ac 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1316,22 +1316,13 @@ namespace daw {
 	constexpr void block_append_from( vector<T, Allocator> &v,
 	                                  InputIterator first, InputIterator last,
 	                                  std::size_t block_size = 512 ) {
-		auto cur_size = v.size( );
-		DAW_UNSAFE_BUFFER_FUNC_START
 		while( first != last ) {
-			v.resize_and_overwrite( cur_size + block_size,
-			                        [&]( T *ptr, std::size_t sz ) {
-				                        ptr += cur_size;
-				                        cur_size += block_size;
-				                        while( cur_size < sz and first != last ) {
-					                        *ptr = *first;
-					                        ++ptr;
-					                        ++first;
-				                        }
-				                        return cur_size;
-			                        } );
+			auto const block_end = v.size( ) + block_size;
+			v.reserve( block_end );
+			for( ; v.size( ) < block_end and first != last; ++first ) {
+				v.emplace_back( *first );
+			}
 		}
-		DAW_UNSAFE_BUFFER_FUNC_STOP
 	}
 
 	template<typename T, typename Allocator = std::allocator<T>,
-- 
2.43.0


From 8174726c886f0bded7a3bab2063af1456946ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:37 +0000
Subject: [PATCH 021/267] fix: vector::append and resize promise the strong
 guarantee

When the capacity sufficed, the elements made before the failing one stayed.
---
 include/daw/vector.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 46383ac..ec1b38a 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1013,7 +1013,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				pointer const old_end = m_end;
+				try {
+#endif
+					construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( old_end );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
@@ -1030,7 +1040,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n, const_reference x ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				pointer const old_end = m_end;
+				try {
+#endif
+					construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( old_end );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
-- 
2.43.0


From 4fe23ee7102826d89f2b47c64f7bcb931887aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 022/267] fix: a memory_mapped_file_t without a file read a
 disengaged resource

Asking a default constructed, moved from or failed object whether it is open,
or for its data, dereferenced an empty optional.
---
 include/daw/daw_memory_mapped_file.h | 31 ++++++++++++++++++----------
 include/daw/daw_unique_resource.h    |  5 +++++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index cc6d53c..4087182 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -67,6 +67,11 @@ namespace daw::filesystem {
 		};
 		daw::unique_resource<fdata_t, cleanup_t> m_fdata;
 
+		// what is open now, an empty fdata_t when nothing is
+		[[nodiscard]] constexpr fdata_t current( ) const noexcept {
+			return m_fdata ? *m_fdata : fdata_t{ };
+		}
+
 	public:
 		explicit memory_mapped_file_t( ) = default;
 
@@ -119,47 +124,51 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer data( ) noexcept {
-			return m_fdata->ptr;
+			return current( ).ptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer data( ) const noexcept {
-			return m_fdata->ptr;
+			return current( ).ptr;
 		}
 
 		[[nodiscard]] constexpr pointer begin( ) noexcept {
-			return m_fdata->ptr;
+			return current( ).ptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer begin( ) const noexcept {
-			return m_fdata->ptr;
+			return current( ).ptr;
 		}
 
 		[[nodiscard]] constexpr const_pointer cbegin( ) const noexcept {
-			return m_fdata->ptr;
+			return current( ).ptr;
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			auto const d = current( );
+			return d.ptr + static_cast<ptrdiff_t>( d.size );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			auto const d = current( );
+			return d.ptr + static_cast<ptrdiff_t>( d.size );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			return m_fdata->ptr + static_cast<ptrdiff_t>( m_fdata->size );
+			auto const d = current( );
+			return d.ptr + static_cast<ptrdiff_t>( d.size );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return m_fdata->size;
+			return current( ).size;
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or m_fdata->size == 0;
+			return not( *this ) or current( ).size == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-			return m_fdata->file >= 0 and m_fdata->ptr != nullptr;
+			auto const d = current( );
+			return d.file >= 0 and d.ptr != nullptr;
 		}
 
 		template<typename Traits>
diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index a3dbba7..640e8ca 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -74,6 +74,11 @@ namespace daw {
 			return std::move( *result );
 		}
 
+		/// @brief Is there a resource
+		[[nodiscard]] constexpr explicit operator bool( ) const noexcept {
+			return value.has_value( );
+		}
+
 		constexpr T &get( ) noexcept {
 			assert( value );
 			return *value;
-- 
2.43.0


From eec52720460b338102add90bcf974474ea1b9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 023/267] fix: memory_mapped_file_t unmapped MAP_FAILED when
 mapping failed

---
 include/daw/daw_memory_mapped_file.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 4087182..6748c74 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -103,15 +103,16 @@ namespace daw::filesystem {
 				}
 				m_fdata->size = static_cast<size_type>( fsz );
 			}
-			m_fdata->ptr = static_cast<pointer>(
+			auto *const ptr =
 			  mmap( nullptr, m_fdata->size,
 			        mode == open_mode::read ? PROT_READ : PROT_READ | PROT_WRITE,
-			        MAP_SHARED, m_fdata->file, 0 ) );
+			        MAP_SHARED, m_fdata->file, 0 );
 
-			if( m_fdata->ptr == MAP_FAILED ) {
+			if( ptr == MAP_FAILED ) {
 				m_fdata.reset( );
 				return false;
 			}
+			m_fdata->ptr = static_cast<pointer>( ptr );
 			return true;
 		}
 
-- 
2.43.0


From bdfe7f3d2b28cda9a5292415c48238bdc74d717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 024/267] fix: read_file must close the file it opens

---
 include/daw/daw_read_file.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index 2c3f73a..a9c9938 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -53,6 +53,7 @@ namespace daw {
 		}
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		(void)fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
@@ -98,6 +99,7 @@ namespace daw {
 			return std::nullopt;
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
+		(void)fclose( f );
 		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
 			return std::nullopt;
 		}
-- 
2.43.0


From 414b25f9fb8936504dc13b74c7c62c2a793fd8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:09 +0000
Subject: [PATCH 025/267] fix: read_file of wide characters must not pad the
 result

The string was sized by bytes, so it held sizeof( CharT ) times too many
characters.
---
 include/daw/daw_read_file.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_read_file.h b/include/daw/daw_read_file.h
index a9c9938..95029ef 100644
--- a/include/daw/daw_read_file.h
+++ b/include/daw/daw_read_file.h
@@ -38,8 +38,8 @@ namespace daw {
 			// File is too big to fit into string(WIN32)
 			return std::nullopt;
 		}
-		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		auto result = std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize ) / sizeof( CharT ), CharT{ } );
 #if defined( _MSC_VER )
 		FILE *f = nullptr;
 		auto err = fopen_s( &f, path.c_str( ), "rb" );
@@ -54,7 +54,7 @@ namespace daw {
 #endif
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		(void)fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
@@ -91,8 +91,8 @@ namespace daw {
 			// File is too big to fit into string(WIN32)
 			return std::nullopt;
 		}
-		auto result =
-		  std::basic_string<CharT>( static_cast<std::size_t>( fsize ), CharT{ } );
+		auto result = std::basic_string<CharT>(
+		  static_cast<std::size_t>( fsize ) / sizeof( CharT ), CharT{ } );
 		FILE *f = nullptr;
 		auto err = _wfopen_s( &f, path.c_str( ), L"rb" );
 		if( err ) {
@@ -100,7 +100,7 @@ namespace daw {
 		}
 		auto num_read = fread( result.data( ), sizeof( CharT ), result.size( ), f );
 		(void)fclose( f );
-		if( num_read != ( result.size( ) / sizeof( CharT ) ) ) {
+		if( num_read != result.size( ) ) {
 			return std::nullopt;
 		}
 		return result;
-- 
2.43.0


From 7dfeba5a32b348829c3a10767aee0d44dc6618a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:44 +0000
Subject: [PATCH 026/267] fix: memory_mapped_file_t::size( ) and end( ) count
 values, not bytes

With values larger than a byte the range ran past the end of the mapping.
---
 include/daw/daw_memory_mapped_file.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_memory_mapped_file.h b/include/daw/daw_memory_mapped_file.h
index 6748c74..7c3f178 100644
--- a/include/daw/daw_memory_mapped_file.h
+++ b/include/daw/daw_memory_mapped_file.h
@@ -145,26 +145,23 @@ namespace daw::filesystem {
 		}
 
 		[[nodiscard]] constexpr pointer end( ) noexcept {
-			auto const d = current( );
-			return d.ptr + static_cast<ptrdiff_t>( d.size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer end( ) const noexcept {
-			auto const d = current( );
-			return d.ptr + static_cast<ptrdiff_t>( d.size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr const_pointer cend( ) const noexcept {
-			auto const d = current( );
-			return d.ptr + static_cast<ptrdiff_t>( d.size );
+			return data( ) + static_cast<ptrdiff_t>( size( ) );
 		}
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
-			return current( ).size;
+			return current( ).size / sizeof( value_type );
 		}
 
 		[[nodiscard]] constexpr bool empty( ) const noexcept {
-			return not( *this ) or current( ).size == 0;
+			return not( *this ) or size( ) == 0;
 		}
 
 		constexpr explicit operator bool( ) const noexcept {
-- 
2.43.0


From 2a90f6ba11ac87f2a206d6416c54ecf4120bb3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 027/267] fix: the average of bench_n_test is the mean of its
 runs

---
 include/daw/daw_benchmark.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_benchmark.h b/include/daw/daw_benchmark.h
index 35de692..04dd0d6 100644
--- a/include/daw/daw_benchmark.h
+++ b/include/daw/daw_benchmark.h
@@ -292,11 +292,10 @@ namespace daw {
 			} else if constexpr( Runs > 1 ) {
 				return total_time / static_cast<double>( Runs );
 			} else /* Runs == 1 */ {
-				return ( total_time - max_time ) / 1.0;
+				return total_time;
 			}
 		}( );
 
-		avg_time -= base_time;
 		std::cout << title << delem << "	runs: " << Runs << delem
 		          << "	total: " << utility::format_seconds( total_time, 2 )
 		          << delem << "	avg:   " << utility::format_seconds( avg_time, 2 )
@@ -459,10 +458,9 @@ namespace daw {
 			} else if constexpr( Runs > 1 ) {
 				return total_time / static_cast<double>( Runs );
 			} else /* Runs == 1 */ {
-				return ( total_time - max_time ) / 1.0;
+				return total_time;
 			}
 		}( );
-		avg_time -= base_time;
 		std::cout << title << delem;
 
 		std::cout << "	runs:        " << Runs << delem
-- 
2.43.0


From 2e8bdf15f965aaf119cd1baecd4027d014ddc241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 028/267] fix: vprintln must use the run time format

---
 include/daw/daw_print.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_print.h b/include/daw/daw_print.h
index 2830d10..d4e2512 100644
--- a/include/daw/daw_print.h
+++ b/include/daw/daw_print.h
@@ -54,7 +54,7 @@ namespace daw {
 	DAW_ATTRIB_NOINLINE void vprintln( FILE *f, std::string fmt,
 	                                   Args &&...args ) {
 		fmt += '\n';
-		daw::print( f, fmt, DAW_FWD( args )... );
+		daw::vprint( f, fmt, DAW_FWD( args )... );
 	}
 
 	template<typename... Args>
@@ -67,7 +67,7 @@ namespace daw {
 	template<typename... Args>
 	DAW_ATTRIB_NOINLINE void vprintln( std::string fmt, Args &&...args ) {
 		fmt += '\n';
-		daw::print( stdout, fmt, DAW_FWD( args )... );
+		daw::vprint( stdout, fmt, DAW_FWD( args )... );
 	}
 
 	DAW_ATTRIB_INLINE void println( ) {
-- 
2.43.0


From 7361e655548e222aea71cb4d30196238824d9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 029/267] fix: all translation units of a thread must share one
 random engine

---
 include/daw/daw_random.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_random.h b/include/daw/daw_random.h
index 52d6eeb..3fc9677 100644
--- a/include/daw/daw_random.h
+++ b/include/daw/daw_random.h
@@ -25,7 +25,7 @@
 #include <vector>
 
 namespace daw::impl {
-	static inline auto &global_rng( ) {
+	inline auto &global_rng( ) {
 		static thread_local auto e = std::mt19937_64( std::random_device{ }( ) );
 		return e;
 	}
-- 
2.43.0


From a1c880340492470462e45873e68cb8184f9ac066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:29 +0000
Subject: [PATCH 030/267] fix: all translation units of a thread must share one
 contract failure handler

---
 include/daw/daw_contract.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_contract.h b/include/daw/daw_contract.h
index a8b6d81..7b374d9 100644
--- a/include/daw/daw_contract.h
+++ b/include/daw/daw_contract.h
@@ -35,7 +35,7 @@ namespace daw {
 		std::abort( );
 	}
 #endif
-	DAW_CONSTINIT static thread_local daw::function_ref<void( )>
+	DAW_CONSTINIT inline thread_local daw::function_ref<void( )>
 	  contract_failure_handler = default_contract_failure;
 
 	DAW_ATTRIB_NOINLINE inline void contract_failure( ) {
-- 
2.43.0


From 40910747e1150909f6c9b2ef030b9ee6abb44dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:41 +0000
Subject: [PATCH 031/267] fix: expected_from_code<Result> must return what the
 code returned or threw

---
 include/daw/daw_expected.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..db82984 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,8 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ),
+		                                      DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From 07115cbb5875a1be89eee4c2ad0048da71500ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 032/267] fix: an expected_t whose assignment failed must be
 empty, not in no state at all

---
 include/daw/daw_expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index db82984..73e95a5 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -166,8 +166,8 @@ namespace daw {
 		}
 
 		[[nodiscard]] bool empty( ) const noexcept {
-			return std::holds_alternative<
-			  expected_details::ExpectedTag<expected_details::Empty>>( m_value );
+			// A failed assignment can leave the variant without any alternative
+			return not has_value( ) and not has_exception( );
 		}
 
 		explicit operator bool( ) const noexcept {
-- 
2.43.0


From 55f5909e2cfaaa8573632c13a9dd496f47e690d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 033/267] fix: expected_t::from_code must capture a failing
 move of the result

---
 include/daw/daw_expected.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 73e95a5..a390da4 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -140,9 +140,7 @@ namespace daw {
 		                   std::nullptr_t> = nullptr>
 		[[nodiscard]] static expected_t from_code( Function &&func,
 		                                           Args &&...args ) {
-			auto result = expected_t( );
-			result.m_value = variant_from_code( DAW_FWD( func ), DAW_FWD( args )... );
-			return result;
+			return expected_t( DAW_FWD( func ), DAW_FWD( args )... );
 		}
 
 		void set_exception( std::exception_ptr ptr ) noexcept {
-- 
2.43.0


From a12adf05257acfb0cb51877a86478223b7ba3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:30 +0000
Subject: [PATCH 034/267] fix: daw_expected.h captured no exceptions unless
 another header detected them

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index a390da4..0448f89 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From 0e96610f04877d868dd875492d107ed416900198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 035/267] fix: setting a value of an expected_t constructs one
 when there is none, which may throw

---
 include/daw/daw_expected.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 0448f89..580b242 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -78,7 +78,8 @@ namespace daw {
 			m_value = value;
 		}
 		void set_value( value_type &&value ) noexcept(
-		  std::is_nothrow_move_assignable_v<value_type> ) {
+		  std::is_nothrow_move_assignable_v<value_type> and
+		  std::is_nothrow_move_constructible_v<value_type> ) {
 			m_value = std::move( value );
 		}
 
-- 
2.43.0


From 0c70fe72e5489f54a0c605e83d1b21d4221f0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:34 +0000
Subject: [PATCH 036/267] fix: making the exception message of an expected_t
 allocates and is not noexcept

---
 include/daw/daw_expected.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 580b242..9ee1de1 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -235,7 +235,7 @@ namespace daw {
 			return &( get( ) );
 		}
 
-		[[nodiscard]] std::string get_exception_message( ) const noexcept {
+		[[nodiscard]] std::string get_exception_message( ) const {
 			auto result = std::string( );
 #if defined( DAW_USE_EXCEPTIONS )
 			try {
@@ -389,7 +389,7 @@ namespace daw {
 			throw_if_exception( );
 		}
 
-		[[nodiscard]] std::string get_exception_message( ) const noexcept {
+		[[nodiscard]] std::string get_exception_message( ) const {
 			std::string result{ };
 #if defined( DAW_USE_EXCEPTIONS )
 			try {
-- 
2.43.0


From 97d7bac8153d429adde02601831674152ef51498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 037/267] fix: copying an empty value_ptr must not dereference
 it

---
 include/daw/daw_value_ptr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..6c5a56b 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -73,12 +73,12 @@ namespace daw {
 			return result;
 		}
 
-		value_ptr( value_ptr const &other ) noexcept(
-		  noexcept( std::make_unique<value_type>( *other.m_value ) ) )
+		value_ptr( value_ptr const &other )
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value ? std::make_unique<value_type>( *other.m_value )
+		                           : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
-- 
2.43.0


From 281bfaf5b09018ac7d96318c5fa015eb422ef282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 038/267] fix: copy assignment of a value_ptr did not compile,
 and it allocates

---
 include/daw/daw_value_ptr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 6c5a56b..46583bf 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -86,9 +86,8 @@ namespace daw {
 		  , enable_copy_assignment<T>( std::move( other ) )
 		  , m_value( std::move( other.m_value ) ) {}
 
-		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
-		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+		constexpr value_ptr &operator=( value_ptr const &rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
-- 
2.43.0


From fc667d3942a9eceff0f14cf14ddaeb2c23bc7927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 039/267] fix: assigning a value to an empty value_ptr must
 make one, which may throw

---
 include/daw/daw_value_ptr.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 46583bf..2f092f0 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -109,8 +109,7 @@ namespace daw {
 			return *this;
 		}
 
-		value_ptr &operator=( value_type const &rhs ) noexcept(
-		  std::is_nothrow_copy_assignable_v<value_type> ) {
+		value_ptr &operator=( value_type const &rhs ) {
 			if( !m_value ) {
 				m_value = std::make_unique<value_type>( rhs );
 			} else {
@@ -119,9 +118,12 @@ namespace daw {
 			return *this;
 		}
 
-		value_ptr &operator=( value_type &&rhs ) noexcept(
-		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+		value_ptr &operator=( value_type &&rhs ) {
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 65baf95195d53914c0b3fcf1f27188fbde2cb5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 040/267] fix: making a value_ptr allocates and is not noexcept

---
 include/daw/daw_value_ptr.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 2f092f0..1d6b151 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -52,8 +52,7 @@ namespace daw {
 		    all_true_v<std::is_constructible_v<value_type, Args...>,
 		               !traits::is_first_type_v<value_ptr, std::decay_t<Args>...>>,
 		    std::nullptr_t> = nullptr>
-		explicit value_ptr( Args &&...args ) noexcept(
-		  std::is_nothrow_constructible_v<value_type, Args...> )
+		explicit value_ptr( Args &&...args )
 		  : enable_default_constructor<T>( traits_details::non_constructor{ } )
 		  , enable_copy_constructor<T>( traits_details::non_constructor{ } )
 		  , enable_copy_assignment<T>( traits_details::non_constructor{ } )
@@ -65,9 +64,7 @@ namespace daw {
 		    all_true_v<std::is_constructible_v<value_type, Args...>,
 		               !traits::is_first_type_v<value_ptr, std::decay_t<Args>...>>,
 		    std::nullptr_t> = nullptr>
-		static value_ptr emplace( Args &&...args ) noexcept(
-		  std::is_nothrow_constructible_v<value_type, Args...> ) {
-
+		static value_ptr emplace( Args &&...args ) {
 			auto result = value_ptr<value_type>( std::nullopt );
 			result.m_value = std::make_unique<U>( DAW_FWD( args )... );
 			return result;
-- 
2.43.0


From 328e34004a8275623f506ff0ab733ff94221860f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 041/267] fix: releasing a value_ptr did not compile, nor did
 testing a const one

---
 include/daw/daw_value_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 1d6b151..661f859 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -142,7 +142,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
@@ -181,7 +181,7 @@ namespace daw {
 			return *m_value;
 		}
 
-		constexpr explicit operator bool( ) noexcept {
+		constexpr explicit operator bool( ) const noexcept {
 			return static_cast<bool>( m_value );
 		}
 
-- 
2.43.0


From f3b155a78f89b5b851f6d27193340268e6b34feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 042/267] fix: comparing value_ptr's calls the comparison of
 the value, which may throw

---
 include/daw/daw_value_ptr.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 661f859..0686643 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -189,7 +189,9 @@ namespace daw {
 		friend struct value_ptr;
 
 		template<typename U>
-		constexpr int compare( value_ptr<U> const &rhs ) const noexcept {
+		constexpr int compare( value_ptr<U> const &rhs ) const
+		  noexcept( noexcept( Compare{ }( *m_value, *rhs.m_value ) ) and
+		            noexcept( Compare{ }( *rhs.m_value, *m_value ) ) ) {
 			if( !m_value ) {
 				if( !rhs.m_value ) {
 					return 0;
@@ -241,7 +243,7 @@ namespace daw {
 	                          std::nullptr_t> = nullptr>
 	constexpr bool
 	operator==( value_ptr<T> const &lhs,
-	            value_ptr<U> const &rhs ) noexcept( noexcept( *lhs == *rhs ) ) {
+	            value_ptr<U> const &rhs ) noexcept( noexcept( lhs.compare( rhs ) ) ) {
 
 		return lhs.compare( rhs ) == 0;
 	}
@@ -251,7 +253,7 @@ namespace daw {
 	                          std::nullptr_t> = nullptr>
 	constexpr bool
 	operator!=( value_ptr<T> const &lhs,
-	            value_ptr<U> const &rhs ) noexcept( noexcept( *lhs != *rhs ) ) {
+	            value_ptr<U> const &rhs ) noexcept( noexcept( lhs.compare( rhs ) ) ) {
 		return lhs.compare( rhs ) != 0;
 	}
 
@@ -260,7 +262,7 @@ namespace daw {
 	                          std::nullptr_t> = nullptr>
 	constexpr bool
 	operator>( value_ptr<T> const &lhs,
-	           value_ptr<U> const &rhs ) noexcept( noexcept( *lhs > *rhs ) ) {
+	           value_ptr<U> const &rhs ) noexcept( noexcept( lhs.compare( rhs ) ) ) {
 		return lhs.compare( rhs ) > 0;
 	}
 
@@ -269,7 +271,7 @@ namespace daw {
 	                          std::nullptr_t> = nullptr>
 	constexpr bool
 	operator>=( value_ptr<T> const &lhs,
-	            value_ptr<U> const &rhs ) noexcept( noexcept( *lhs >= *rhs ) ) {
+	            value_ptr<U> const &rhs ) noexcept( noexcept( lhs.compare( rhs ) ) ) {
 		return lhs.compare( rhs ) >= 0;
 	}
 
@@ -278,7 +280,7 @@ namespace daw {
 	                          std::nullptr_t> = nullptr>
 	constexpr bool
 	operator<( value_ptr<T> const &lhs,
-	           value_ptr<U> const &rhs ) noexcept( noexcept( *lhs < *rhs ) ) {
+	           value_ptr<U> const &rhs ) noexcept( noexcept( lhs.compare( rhs ) ) ) {
 		return lhs.compare( rhs ) < 0;
 	}
 
@@ -287,7 +289,7 @@ namespace daw {
 	                          std::nullptr_t> = nullptr>
 	constexpr bool
 	operator<=( value_ptr<T> const &lhs,
-	            value_ptr<U> const &rhs ) noexcept( noexcept( *lhs <= *rhs ) ) {
+	            value_ptr<U> const &rhs ) noexcept( noexcept( lhs.compare( rhs ) ) ) {
 		return lhs.compare( rhs ) <= 0;
 	}
 	namespace value_ptr_details {
-- 
2.43.0


From 5ff20a71524b5c3576453f2aa766d6e5bb2bd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 043/267] fix: moving a poly_value allocates and moves the
 value, which may throw

---
 include/daw/daw_poly_value.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index dc472a5..516875d 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -28,7 +28,7 @@ namespace daw {
 			virtual constexpr std::unique_ptr<poly_value_storage_base>
 			copy( ) const = 0;
 			virtual constexpr std::unique_ptr<poly_value_storage_base>
-			move( ) noexcept = 0;
+			move( ) = 0;
 			virtual constexpr Base const *get( ) const = 0;
 			virtual constexpr Base *get( ) = 0;
 
@@ -59,7 +59,7 @@ namespace daw {
 			}
 
 			constexpr std::unique_ptr<poly_value_storage_base<Base>>
-			move( ) noexcept override {
+			move( ) override {
 				return std::unique_ptr<poly_value_storage_base<Base>>(
 				  new poly_value_storage( std::move( m_value ) ) );
 			}
@@ -119,10 +119,10 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr poly_value( poly_value &&other ) noexcept
+		constexpr poly_value( poly_value &&other )
 		  : m_storage( other.m_storage->move( ) ) {}
 
-		constexpr poly_value &operator=( poly_value &&rhs ) noexcept {
+		constexpr poly_value &operator=( poly_value &&rhs ) {
 			if( this != &rhs ) {
 				m_storage = rhs.m_storage->move( );
 			}
-- 
2.43.0


From db62751dd33254cdf2c8e57774abe47a7d3c8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 044/267] fix: converting a const poly_value rvalue did not
 compile

---
 include/daw/daw_poly_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index 516875d..d8e55a3 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -179,7 +179,7 @@ namespace daw {
 			return std::move( *get( ) );
 		}
 
-		operator Base &&( ) const && noexcept {
+		operator Base const &&( ) const && noexcept {
 			return std::move( *get( ) );
 		}
 	};
-- 
2.43.0


From 10e37e0216cb56aa44490a5ff73594dc6fad33c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 045/267] fix: converting from a poly_value of a derived class
 did not compile

---
 include/daw/daw_poly_value.h | 39 ++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_value.h b/include/daw/daw_poly_value.h
index d8e55a3..ce94437 100644
--- a/include/daw/daw_poly_value.h
+++ b/include/daw/daw_poly_value.h
@@ -73,6 +73,39 @@ namespace daw {
 			}
 		};
 
+		// Holds a poly_value of a class derived from Base
+		template<typename Base, typename PolyChild>
+		class poly_value_adaptor : public poly_value_storage_base<Base> {
+			PolyChild m_value;
+
+		public:
+			explicit poly_value_adaptor( PolyChild const &value )
+			  : m_value( value ) {}
+
+			explicit poly_value_adaptor( PolyChild &&value )
+			  : m_value( std::move( value ) ) {}
+
+			constexpr std::unique_ptr<poly_value_storage_base<Base>>
+			copy( ) const override {
+				return std::unique_ptr<poly_value_storage_base<Base>>(
+				  new poly_value_adaptor( m_value ) );
+			}
+
+			constexpr std::unique_ptr<poly_value_storage_base<Base>>
+			move( ) override {
+				return std::unique_ptr<poly_value_storage_base<Base>>(
+				  new poly_value_adaptor( std::move( m_value ) ) );
+			}
+
+			constexpr Base const *get( ) const override {
+				return m_value.get( );
+			}
+
+			constexpr Base *get( ) override {
+				return m_value.get( );
+			}
+		};
+
 		template<typename Base, typename T = Base, typename... Args>
 		requires std::is_base_of_v<Base, T> //
 		  constexpr std::unique_ptr<poly_value_storage_base<Base>>
@@ -135,13 +168,15 @@ namespace daw {
 		requires( std::is_base_of_v<Base, Child> and
 		          not std::is_same_v<Base, Child> ) //
 		  poly_value( poly_value<Child> const &other )
-		  : m_storage( other.m_storage->copy( ) ) {}
+		  : m_storage( new poly_value_impl::poly_value_adaptor<
+		               Base, poly_value<Child>>( other ) ) {}
 
 		template<typename Child>
 		requires( std::is_base_of_v<Base, Child> and
 		          not std::is_same_v<Base, Child> ) //
 		  poly_value( poly_value<Child> &&other )
-		  : m_storage( other.m_storage->move( ) ) {}
+		  : m_storage( new poly_value_impl::poly_value_adaptor<
+		               Base, poly_value<Child>>( std::move( other ) ) ) {}
 
 		Base const *get( ) const {
 			return m_storage->get( );
-- 
2.43.0


From 402cd2f4528ad881b7f87cb9eb989798b5cd85d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 046/267] fix: an empty value_ptr of a type without a default
 constructor did not compile

---
 include/daw/daw_value_ptr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 0686643..c9eea0e 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -44,7 +44,10 @@ namespace daw {
 		std::unique_ptr<value_type> m_value{ };
 
 	public:
-		constexpr explicit value_ptr( std::nullopt_t ) noexcept {}
+		constexpr explicit value_ptr( std::nullopt_t ) noexcept
+		  : enable_default_constructor<T>( traits_details::non_constructor{ } )
+		  , enable_copy_constructor<T>( traits_details::non_constructor{ } )
+		  , enable_copy_assignment<T>( traits_details::non_constructor{ } ) {}
 
 		template<
 		  typename... Args,
-- 
2.43.0


From 2881400eda5976959a92db8b150ae1be4039696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 047/267] fix: daw::function must copy and move the callable,
 not its bytes

---
 include/daw/daw_stack_function.h | 64 ++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..da81a53 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -46,24 +46,28 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &other ) {
+				other->copy_to( &m_data );
+			}
+
+			function_storage( function_storage &&other ) {
+				other->move_to( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
-				clean( );
-				m_data = rhs.m_data;
+				replace_with( function_storage( rhs ) );
 				return *this;
 			}
 
-			function_storage &operator=( function_storage &&rhs ) noexcept {
+			function_storage &operator=( function_storage &&rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
-				clean( );
-				m_data = std::move( rhs.m_data );
+				// rhs can be part of what is held
+				replace_with( function_storage( std::move( rhs ) ) );
 				return *this;
 			}
 
@@ -88,6 +92,22 @@ namespace daw {
 				std::destroy_at( ptr( ) );
 			}
 
+			void replace_with( function_storage &&other ) {
+				// When the move fails there must still be something to destroy
+				struct empty_on_failure_t {
+					void *m_ptr;
+					~empty_on_failure_t( ) {
+						if( m_ptr ) {
+							new( m_ptr ) typename Base::empty_type( );
+						}
+					}
+				};
+				clean( );
+				auto guard = empty_on_failure_t{ &m_data };
+				other->move_to( &m_data );
+				guard.m_ptr = nullptr;
+			}
+
 			template<typename Func>
 			void store( Func &&f ) {
 				static_assert( sizeof( std::decay_t<Func> ) <= StorageSize );
@@ -113,14 +133,23 @@ namespace daw {
 			}
 		};
 
+		template<typename Result, typename... FuncArgs>
+		struct empty_child;
+
 		template<typename Result, typename... FuncArgs>
 		struct function_base
 		  : daw::virtual_base<function_base<Result, FuncArgs...>> {
+			using empty_type = empty_child<Result, FuncArgs...>;
+
 			function_base( ) = default;
 
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			// Construct a copy at ptr
+			virtual void copy_to( void *ptr ) const = 0;
+			// Construct at ptr, moving from this
+			virtual void move_to( void *ptr ) = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +165,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_to( void *ptr ) const override {
+				new( ptr ) empty_child( );
+			}
+
+			void move_to( void *ptr ) override {
+				new( ptr ) empty_child( );
+			}
 		};
 
 		template<typename...>
@@ -197,6 +234,19 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_to( void *ptr ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					new( ptr ) function_child( *this );
+				} else {
+					// The callable can only be moved
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
+			void move_to( void *ptr ) override {
+				new( ptr ) function_child( std::move( *this ) );
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
-- 
2.43.0


From 5cbfc462178a56dbf05c30fdf7beae90ef1516a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 048/267] fix: daw::function kept a reference to a callable
 given as an lvalue

---
 include/daw/daw_stack_function.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index da81a53..2ac59d6 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -299,9 +299,9 @@ namespace daw {
 		template<typename Func>
 		decltype( auto ) store_if_not_empty( Func &&f ) {
 			func_impl::validate_size<sizeof( std::decay_t<Func> ), MaxSize>( );
-			return func_impl::store_if_not_empty<MaxSize, function_base,
-			                                     function_child<Func>, empty_child>(
-			  DAW_FWD( f ) );
+			return func_impl::store_if_not_empty<
+			  MaxSize, function_base, function_child<std::decay_t<Func>>,
+			  empty_child>( DAW_FWD( f ) );
 		}
 
 	public:
-- 
2.43.0


From 8d9d4367c59c7dc5af8d8539b3f66b82209745fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 049/267] fix: daw::function must forward the arguments to the
 callable

---
 include/daw/daw_stack_function.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 2ac59d6..f464bc7 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -198,11 +198,11 @@ namespace daw {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( std::forward<FuncArgs>( args )... );
 					return;
 				} else {
 					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( std::forward<FuncArgs>( args )... );
 				}
 			}
 
@@ -210,11 +210,11 @@ namespace daw {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( std::forward<FuncArgs>( args )... );
 					return;
 				} else {
 					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( std::forward<FuncArgs>( args )... );
 				}
 			}
 
-- 
2.43.0


From 043f8d00ca273ea03af13c6d3828f0b5337b8cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 050/267] fix: copying a daw::function of another size did not
 compile

---
 include/daw/daw_stack_function.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index f464bc7..dae328f 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -88,6 +88,12 @@ namespace daw {
 				return reinterpret_cast<Base const *>( &m_data );
 			}
 
+			template<size_t N>
+			function_storage( function_storage<N, Base> const &other ) {
+				static_assert( N <= StorageSize );
+				other->copy_to( &m_data );
+			}
+
 			void clean( ) {
 				std::destroy_at( ptr( ) );
 			}
@@ -293,8 +299,12 @@ namespace daw {
 		template<typename Func>
 		using function_child = func_impl::function_child<Func, Result, FuncArgs...>;
 
-		func_impl::function_storage<MaxSize, function_base> m_storage =
-		  empty_child{ };
+		using storage_type = func_impl::function_storage<MaxSize, function_base>;
+
+		template<size_t, typename>
+		friend class function;
+
+		storage_type m_storage = empty_child{ };
 
 		template<typename Func>
 		decltype( auto ) store_if_not_empty( Func &&f ) {
@@ -312,7 +322,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function( function<N, Result( FuncArgs... )> const &other )
-		  : m_storage( *other.m_storage ) {}
+		  : m_storage( other.m_storage ) {}
 
 		template<size_t N,
 		         std::enable_if_t<( N > MaxSize ), std::nullptr_t> = nullptr>
@@ -321,7 +331,7 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function &operator=( function<N, Result( FuncArgs... )> const &other ) {
-			m_storage = *other.m_storage;
+			m_storage = storage_type( other.m_storage );
 			return *this;
 		}
 
-- 
2.43.0


From ff364f74596653d1ccff6d4cfaadbed2bd75d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 051/267] fix: unique_array_t::at threw for positions in range
 and not for others

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 7a4cebb8f566ffc90ed0aaa4d82f07059139c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 052/267] fix: a unique_array_t of no elements is empty

---
 include/daw/daw_unique_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 7a7ee99..d19d7d2 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -93,7 +93,7 @@ namespace daw {
 		}
 
 		constexpr bool empty( ) const noexcept {
-			return m_data == nullptr;
+			return m_size == 0;
 		}
 
 		constexpr size_type size( ) const noexcept {
-- 
2.43.0


From 10791cae90ab698fa4e132cedc1ce5d2d1b85e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 053/267] fix: filling a unique_array_t did not compile, and a
 throwing element terminated

---
 include/daw/daw_unique_array.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index d19d7d2..2752b6c 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -13,11 +13,15 @@
 #include "daw/daw_check_exceptions.h"
 #include "daw_exception.h"
 #include "daw_exchange.h"
+#include "daw_move.h"
 #include "daw_swap.h"
 
 #include <algorithm>
 #include <memory>
+#include <cstdlib>
 #include <stdexcept>
+#include <type_traits>
+#include <utility>
 
 namespace daw {
 	template<typename T>
@@ -35,7 +39,8 @@ namespace daw {
 		pointer m_data = nullptr;
 		size_type m_size = 0;
 
-		static pointer create_values( size_t n ) noexcept {
+		static pointer create_values( size_t n ) noexcept(
+		  std::is_nothrow_default_constructible_v<value_type> ) {
 #if defined( DAW_USE_EXCEPTIONS )
 			try {
 #endif
@@ -75,17 +80,17 @@ namespace daw {
 			return *this;
 		}
 
-		unique_array_t( size_type sz ) noexcept
+		unique_array_t( size_type sz ) noexcept(
+		  std::is_nothrow_default_constructible_v<value_type> )
 		  : m_data( create_values( sz ) )
 		  , m_size( sz ) {}
 
 		template<typename... Args>
-		unique_array_t( size_type sz, Args &&...args ) noexcept(
-		  std::is_nothrow_constructible_v<value_type, Args...> )
-		  : m_data( create_values( sz ) )
-		  , m_size( sz ) {
+		unique_array_t( size_type sz, Args &&...args )
+		  : unique_array_t( sz ) {
 
-			std::fill_n( m_data, m_size, { args... } );
+			auto const value = value_type( DAW_FWD( args )... );
+			std::fill_n( m_data, m_size, value );
 		}
 
 		~unique_array_t( ) noexcept( noexcept( delete[] m_data ) ) {
-- 
2.43.0


From 39e251eb6e1ba7a9a820d989f6948980d53d495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 054/267] fix: reading a locally held value of a const
 sbo_storage failed its assertion

---
 include/daw/daw_sbo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 6c343de..1802e7d 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -46,7 +46,7 @@ namespace daw {
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
 			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
-				assert( engaged == engaged_types::allocated );
+				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-- 
2.43.0


From c15e52b92ce34e34661796bf337ca67b9e4fd5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 055/267] fix: storing an lvalue in an sbo_storage did not
 compile

---
 include/daw/daw_sbo.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 1802e7d..4c06dfd 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -10,6 +10,7 @@
 #include "ciso646.h"
 #include "daw_aligned_storage.h"
 #include "daw_move.h"
+#include "daw_remove_cvref.h"
 
 #include <cassert>
 #include <cstddef>
@@ -71,11 +72,11 @@ namespace daw {
 			engaged = engaged_types::none;
 		}
 
-		template<typename T, typename Allocator = std::allocator<
-		                       std::remove_cv_t<std::remove_cv_t<T>>>>
-		std::remove_cv_t<T> *allocate( T &&value,
-		                               Allocator const &alloc = Allocator{ } ) {
-			using base_type = std::remove_cv_t<T>;
+		template<typename T, typename Allocator =
+		                       std::allocator<daw::remove_cvref_t<T>>>
+		daw::remove_cvref_t<T> *allocate( T &&value,
+		                                  Allocator const &alloc = Allocator{ } ) {
+			using base_type = daw::remove_cvref_t<T>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
 			if constexpr( sizeof( base_type ) <= storage_size ) {
-- 
2.43.0


From 8efa15fe83b2bd7f4345486ecd7510ae5e258d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 056/267] fix: an sbo_storage leaked its memory when the value
 could not be constructed

---
 include/daw/daw_sbo.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 4c06dfd..922cf3d 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -95,11 +95,23 @@ namespace daw {
 				Allocator allocator = Allocator{ alloc };
 				base_type_ptr ptr =
 				  std::allocator_traits<Allocator>::allocate( allocator, 1 );
+				// Give the memory back if the construction fails
+				struct release_on_failure_t {
+					Allocator &m_alloc;
+					base_type_ptr m_ptr;
+					~release_on_failure_t( ) {
+						if( m_ptr ) {
+							std::allocator_traits<Allocator>::deallocate( m_alloc, m_ptr, 1 );
+						}
+					}
+				};
+				auto guard = release_on_failure_t{ allocator, ptr };
 				// Store pointer from allocator in buffer
 				new( &data ) base_type_ptr{ ptr };
 				// Construct new value from passed value at location from allocator
 				std::allocator_traits<Allocator>::construct( allocator, ptr,
 				                                             DAW_FWD( value ) );
+				guard.m_ptr = nullptr;
 				engaged = engaged_types::allocated;
 				return ptr;
 			}
-- 
2.43.0


From f2db05b2965d5f555cec3ab426f49cbf36609df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 057/267] fix: an sbo_storage must not hold a value its buffer
 is not aligned for

---
 include/daw/daw_sbo.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 922cf3d..3a0b93d 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -26,7 +26,15 @@ namespace daw {
 		static constexpr std::size_t storage_size =
 		  Size >= sizeof( void * ) ? Size : sizeof( void * );
 
-		daw::aligned_storage_t<storage_size, Align> data{ };
+		static constexpr std::size_t storage_align =
+		  Align >= alignof( void * ) ? Align : alignof( void * );
+
+		// Is a T stored in data, it is allocated otherwise
+		template<typename T>
+		static constexpr bool is_local_v =
+		  sizeof( T ) <= storage_size and alignof( T ) <= storage_align;
+
+		daw::aligned_storage_t<storage_size, storage_align> data{ };
 
 		enum class engaged_types : std::uint8_t { none, local, allocated };
 
@@ -34,7 +42,7 @@ namespace daw {
 
 		template<typename T>
 		[[nodiscard]] T *get( ) {
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T *>( &data );
 			} else {
@@ -46,7 +54,7 @@ namespace daw {
 
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
-			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
+			if constexpr( is_local_v<AllocatedType> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
@@ -59,7 +67,7 @@ namespace daw {
 		         typename Allocator = std::allocator<std::remove_cv_t<T>>>
 		void deallocate( Allocator const &alloc = Allocator{ } ) {
 			static_assert( not std::is_array_v<T>, "Arrays unsupported" );
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				get<T>( )->~T( );
 			} else {
@@ -79,7 +87,7 @@ namespace daw {
 			using base_type = daw::remove_cvref_t<T>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
-			if constexpr( sizeof( base_type ) <= storage_size ) {
+			if constexpr( is_local_v<base_type> ) {
 				if constexpr( std::is_aggregate_v<base_type> ) {
 					auto *result = new( &data ) base_type{ DAW_FWD( value ) };
 					engaged = engaged_types::local;
-- 
2.43.0


From a5f735ace44df450b80e9e7b04d876d1996b7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:12 +0000
Subject: [PATCH 058/267] fix: reading an allocated value of a const
 sbo_storage did not compile

---
 include/daw/daw_sbo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 3a0b93d..9774ddf 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -59,7 +59,7 @@ namespace daw {
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-				return *reinterpret_cast<T const **>( &data );
+				return *reinterpret_cast<T const *const *>( &data );
 			}
 		}
 
-- 
2.43.0


From 785294e114d87766d8e138d1fb44d7a08eb06f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 059/267] fix: aligned_storage must be aligned as asked for

---
 include/daw/daw_aligned_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_aligned_storage.h b/include/daw/daw_aligned_storage.h
index ed1cb8a..587010a 100644
--- a/include/daw/daw_aligned_storage.h
+++ b/include/daw/daw_aligned_storage.h
@@ -17,7 +17,7 @@ namespace daw {
 		struct aligned_storage {
 			union type {
 				std::max_align_t align;
-				unsigned char data[( Len + Align - 1 ) / Align * Align];
+				alignas( Align ) unsigned char data[( Len + Align - 1 ) / Align * Align];
 			};
 		};
 	} // namespace impl
-- 
2.43.0


From 33b02f20825476dd27f7e9dca5ea10f08c577e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 060/267] fix: taking the value of an uninitialized_storage
 moves it, which may throw

---
 include/daw/daw_uninitialized_storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_uninitialized_storage.h b/include/daw/daw_uninitialized_storage.h
index 17363d8..ecc4983 100644
--- a/include/daw/daw_uninitialized_storage.h
+++ b/include/daw/daw_uninitialized_storage.h
@@ -66,7 +66,7 @@ namespace daw {
 			return *cptr( );
 		}
 
-		value_type rref( ) noexcept {
+		value_type rref( ) noexcept( std::is_nothrow_move_constructible_v<T> ) {
 			return value_type( std::move( *ptr( ) ) );
 		}
 
-- 
2.43.0


From d5fed4a41f1654885a4768894f8c195d6631cbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 061/267] fix: moving a value into a graph node may throw

---
 include/daw/daw_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 49bd0ae..60ef73b 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -92,7 +92,8 @@ namespace daw {
 			edges_t m_outgoing_edges{ };
 
 		public:
-			constexpr node_impl_t( node_id_t id, T &&value ) noexcept
+			constexpr node_impl_t( node_id_t id, T &&value ) noexcept(
+			  std::is_nothrow_move_constructible_v<T> )
 			  : m_id( id )
 			  , m_value( std::move( value ) ) {
 
-- 
2.43.0


From 958731e7eea3fb565e0da61c36b09cd88135e860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 062/267] fix: an edge of a graph_t must be added at both ends
 or not at all

---
 include/daw/daw_graph.h | 42 +++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 60ef73b..0855abe 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -351,6 +351,34 @@ namespace daw {
 		size_t cur_id = 0;
 		std::unordered_map<size_t, raw_node_t> m_nodes{ };
 
+		using edges_t = typename raw_node_t::edges_t;
+
+		struct undo_insert_t {
+			edges_t &out;
+			node_id_t to;
+			edges_t &in;
+			node_id_t from;
+			bool engaged;
+
+			~undo_insert_t( ) {
+				if( engaged ) {
+					out.erase( to );
+					in.erase( from );
+				}
+			}
+		};
+
+		// Either both ends of the edge are inserted or none. Returns true if the
+		// edge wasn't there before
+		static bool insert_edge( edges_t &out, node_id_t to, edges_t &in,
+		                         node_id_t from ) {
+			bool const is_new = out.insert( to ).second;
+			auto on_failure = undo_insert_t{ out, to, in, from, is_new };
+			in.insert( from );
+			on_failure.engaged = false;
+			return is_new;
+		}
+
 	public:
 		graph_t( ) = default;
 
@@ -411,8 +439,7 @@ namespace daw {
 			auto &n_from = get_raw_node( from );
 			auto &n_to = get_raw_node( to );
 
-			n_from.outgoing_edges( ).insert( to );
-			n_to.incoming_edges( ).insert( from );
+			insert_edge( n_from.outgoing_edges( ), to, n_to.incoming_edges( ), from );
 		}
 
 		void add_undirected_edge( node_id_t node0, node_id_t node1 ) {
@@ -422,10 +449,13 @@ namespace daw {
 			auto &n_0 = get_raw_node( node0 );
 			auto &n_1 = get_raw_node( node1 );
 
-			n_0.outgoing_edges( ).insert( node1 );
-			n_0.incoming_edges( ).insert( node1 );
-			n_1.outgoing_edges( ).insert( node0 );
-			n_1.incoming_edges( ).insert( node0 );
+			bool const is_new = insert_edge( n_0.outgoing_edges( ), node1,
+			                                 n_1.incoming_edges( ), node0 );
+			auto on_failure = undo_insert_t{ n_0.outgoing_edges( ), node1,
+			                                 n_1.incoming_edges( ), node0, is_new };
+			(void)insert_edge( n_1.outgoing_edges( ), node0, n_0.incoming_edges( ),
+			                   node1 );
+			on_failure.engaged = false;
 		}
 
 		void remove_node( node_id_t id ) {
-- 
2.43.0


From a8647af975977d263917ded53c57eb0002d91026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 063/267] fix: removing a graph node with an edge to itself
 changed the set being iterated

---
 include/daw/daw_graph.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 0855abe..108541e 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -463,10 +463,15 @@ namespace daw {
 
 			auto &node = get_raw_node( id );
 			for( auto n_id : node.incoming_edges( ) ) {
-				get_node( n_id ).outgoing_edges( ).erase( id );
+				// An edge to itself goes with the node
+				if( n_id != id ) {
+					get_node( n_id ).outgoing_edges( ).erase( id );
+				}
 			}
 			for( auto n_id : node.outgoing_edges( ) ) {
-				get_node( n_id ).incoming_edges( ).erase( id );
+				if( n_id != id ) {
+					get_node( n_id ).incoming_edges( ).erase( id );
+				}
 			}
 			m_nodes.erase( id.value( ) );
 		}
-- 
2.43.0


From fa743742ba9397ff381126a0ad2ade82c8ce2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 064/267] fix: graph node handles are equal when both graph and
 id are

---
 include/daw/daw_graph.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 108541e..fc46452 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -210,15 +210,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -226,7 +226,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
@@ -309,15 +309,15 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator==( Rhs const &rhs ) noexcept {
+		constexpr bool operator==( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
 		template<typename Rhs>
-		constexpr bool operator!=( Rhs const &rhs ) noexcept {
+		constexpr bool operator!=( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			return m_node_id != rhs.id( ) or
@@ -325,7 +325,7 @@ namespace daw {
 		}
 
 		template<typename Rhs>
-		constexpr bool operator<( Rhs const &rhs ) noexcept {
+		constexpr bool operator<( Rhs const &rhs ) const noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
 			daw::exception::dbg_precondition_check(
-- 
2.43.0


From 400ed7899b03d99e6b86c89c462fa738f857cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 065/267] fix: sorting children of equal order had no valid
 ordering

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 07f5d56..482122c 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -97,8 +97,8 @@ namespace daw {
 					auto child_nodes = graph_alg_impl::get_child_nodes( graph, node );
 					if constexpr( perform_sort_v ) {
 						std::sort( std::begin( child_nodes ), std::end( child_nodes ),
-						           [&]( auto &&...args ) {
-							           return not comp( DAW_FWD( args )... );
+						           [&]( auto const &lhs, auto const &rhs ) {
+							           return comp( rhs, lhs );
 						           } );
 					}
 					for( auto child : child_nodes ) {
@@ -182,8 +182,8 @@ namespace daw {
 
 					std::sort( children.begin( ), children.end( ),
 					           [&]( daw::node_id_t left_id, daw::node_id_t right_id ) {
-						           return not ord( graph.get_node( left_id ).value( ),
-						                           graph.get_node( right_id ).value( ) );
+						           return ord( graph.get_node( right_id ).value( ),
+						                       graph.get_node( left_id ).value( ) );
 					           } );
 					path.reserve( path.size( ) + children.size( ) );
 					std::copy( children.begin( ), children.end( ),
-- 
2.43.0


From f6a403901e60a0018f3942dd9295a1418650d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 066/267] fix: the const end of a topological_sorted_iterator
 did not compile

---
 include/daw/daw_graph_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 482122c..11f624b 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -305,7 +305,7 @@ namespace daw {
 
 		[[nodiscard]] topological_sorted_iterator end( ) const {
 			auto result = *this;
-			result.m_iterator = result.end( );
+			result.m_iterator = m_nodes->end( );
 			return result;
 		}
 
-- 
2.43.0


From b5055c7e7106e978791a3ee4b92c4c11ef729c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 067/267] fix: iterating a topological range in reverse went
 out of its bounds

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 11f624b..889f0f3 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -425,7 +425,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rbegin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t end( ) const {
@@ -433,7 +433,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rend( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
@@ -465,7 +465,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> begin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t rend( ) const {
@@ -473,7 +473,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> end( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
-- 
2.43.0


From 0e42285f04307db0e3ed68ed0c45782c01fc2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 068/267] fix: visiting a graph must accept what accepts the
 node handles it is given

---
 include/daw/daw_graph.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index fc46452..dd019d5 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -512,9 +512,9 @@ namespace daw {
 
 		template<typename Predicate, typename Visitor>
 		void visit( Predicate &&pred, Visitor &&vis ) {
-			static_assert( std::is_invocable_v<Predicate, raw_node_t const &>,
+			static_assert( std::is_invocable_v<Predicate, node_t &>,
 			               "Predicate must accept a node as argument" );
-			static_assert( std::is_invocable_v<Visitor, raw_node_t &>,
+			static_assert( std::is_invocable_v<Visitor, node_t>,
 			               "Visitor must accept a node as argument" );
 			for( auto &node_ref : m_nodes ) {
 				auto node = get_node( node_ref.second.id( ) );
@@ -526,9 +526,9 @@ namespace daw {
 
 		template<typename Predicate, typename Visitor>
 		void visit( Predicate &&pred, Visitor &&vis ) const {
-			static_assert( std::is_invocable_v<Predicate, raw_node_t const &>,
+			static_assert( std::is_invocable_v<Predicate, const_node_t &>,
 			               "Predicate must accept a node as argument" );
-			static_assert( std::is_invocable_v<Visitor, raw_node_t const &>,
+			static_assert( std::is_invocable_v<Visitor, const_node_t>,
 			               "Visitor must accept a node as argument" );
 			for( auto const &node_ref : m_nodes ) {
 				auto node = get_node( node_ref.second.id( ) );
@@ -540,7 +540,7 @@ namespace daw {
 
 		template<typename Visitor>
 		void visit( Visitor &&vis ) {
-			static_assert( std::is_invocable_v<Visitor, raw_node_t &>,
+			static_assert( std::is_invocable_v<Visitor, node_t>,
 			               "Visitor must accept a node as argument" );
 			for( auto &node_ref : m_nodes ) {
 				auto node = get_node( node_ref.second.id( ) );
@@ -550,7 +550,7 @@ namespace daw {
 
 		template<typename Visitor>
 		void visit( Visitor &&vis ) const {
-			static_assert( std::is_invocable_v<Visitor, raw_node_t const &>,
+			static_assert( std::is_invocable_v<Visitor, const_node_t>,
 			               "Visitor must accept a node as argument" );
 			for( auto const &node_ref : m_nodes ) {
 				auto node = get_node( node_ref.second.id( ) );
-- 
2.43.0


From 8eac1a0960c76bf14e37f2894124733d7e32be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 069/267] fix: emplace_back on a ring_adaptor replaced the
 front instead of appending

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..633d0c8 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,9 +96,9 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
+			++m_tail;
 			return m_queue[idx];
 		}
 
-- 
2.43.0


From eb1026f8c36e43d8f997e393f0d8af50c7367b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 070/267] fix: ring_adaptor::pop_front lost the element when
 moving it out threw

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 633d0c8..f436c08 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -120,9 +120,9 @@ namespace daw {
 
 		value_type pop_front( ) {
 			assert( not is_empty( ) );
-			auto const idx = get_idx( m_head );
+			value_type result = std::move( m_queue[get_idx( m_head )] );
 			++m_head;
-			return std::move( m_queue[idx] );
+			return result;
 		}
 
 		inline constexpr const_iterator begin( ) const {
-- 
2.43.0


From a5dde887a22cbb1838ca8194588309a307a2ab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 071/267] fix: hash_set_t terminated the program when its table
 could not be allocated

---
 include/daw/daw_hash_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..365f43d 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -56,7 +56,7 @@ namespace daw {
 		}
 
 	public:
-		hash_set_t( std::size_t range_size ) noexcept
+		hash_set_t( std::size_t range_size )
 		  : m_indices( range_size, std::nullopt ) {}
 
 		std::uint64_t insert( Key const &key ) {
-- 
2.43.0


From d4bb75a20c9036c39bb526d5a966bf1a0fe9d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 072/267] fix: looking up a key in a hash_set_t terminated the
 program when its hash or comparison threw

---
 include/daw/daw_hash_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 365f43d..2513230 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -79,7 +79,7 @@ namespace daw {
 			return index;
 		}
 
-		[[nodiscard]] bool exists( Key const &key ) const noexcept {
+		[[nodiscard]] bool exists( Key const &key ) const {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
 			if( index ) {
@@ -88,7 +88,7 @@ namespace daw {
 			return false;
 		}
 
-		[[nodiscard]] std::size_t count( Key const &key ) const noexcept {
+		[[nodiscard]] std::size_t count( Key const &key ) const {
 			return exists( key ) ? 1U : 0U;
 		}
 
-- 
2.43.0


From 4870906c50852e3d9bef6b3ce5a7c7fc2875d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 073/267] fix: hash_set_t::size did not compile

---
 include/daw/daw_hash_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 2513230..fb6c164 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -99,8 +99,8 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t n, auto const &opt ) {
+				                                   return n + ( opt ? 1U : 0U );
 			                                   } );
 		}
 	};
-- 
2.43.0


From 2bf14405a8374dd10ae9c647e0db06b2b85b2005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 074/267] fix: using a hash_set_t without room divided by zero

---
 include/daw/daw_hash_set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index fb6c164..f427c61 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -34,6 +34,9 @@ namespace daw {
 
 		[[nodiscard]] std::optional<std::size_t>
 		find_index( std::uint64_t hash, Key const &key ) const {
+			if( m_indices.empty( ) ) {
+				return { };
+			}
 			std::size_t const scaled_hash = scale_hash( hash, m_indices.size( ) );
 
 			for( std::size_t n = scaled_hash; n < m_indices.size( ); ++n ) {
-- 
2.43.0


From a9e86df841dee1dde63e4125b25bd999a2c93b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 075/267] fix: erasing from a hash_set_t did not compile

---
 include/daw/daw_hash_set.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index f427c61..7b2b6cc 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -23,6 +23,8 @@ namespace daw {
 	template<typename Key, typename Hash = std::hash<Key>>
 	class hash_set_t {
 		std::vector<std::optional<Key>> m_indices;
+		// positions that once held a key, searches must look past them
+		std::vector<bool> m_erased;
 
 		[[nodiscard]] static constexpr std::size_t
 		scale_hash( std::uint64_t hash, std::size_t range_size ) {
@@ -39,28 +41,29 @@ namespace daw {
 			}
 			std::size_t const scaled_hash = scale_hash( hash, m_indices.size( ) );
 
-			for( std::size_t n = scaled_hash; n < m_indices.size( ); ++n ) {
-				if( not m_indices[n] ) {
-					return n;
+			auto first_free = std::optional<std::size_t>{ };
+			for( std::size_t k = 0; k < m_indices.size( ); ++k ) {
+				std::size_t const n = ( scaled_hash + k ) % m_indices.size( );
+				if( m_indices[n] ) {
+					if( *m_indices[n] == key ) {
+						return n;
+					}
+					continue;
 				}
-				if( *m_indices[n] == key ) {
-					return n;
+				if( not first_free ) {
+					first_free = n;
 				}
-			}
-			for( std::size_t n = 0; n < scaled_hash; ++n ) {
-				if( not m_indices[n] ) {
-					return n;
-				}
-				if( *m_indices[n] == key ) {
-					return n;
+				if( not m_erased[n] ) {
+					break;
 				}
 			}
-			return { };
+			return first_free;
 		}
 
 	public:
 		hash_set_t( std::size_t range_size )
-		  : m_indices( range_size, std::nullopt ) {}
+		  : m_indices( range_size, std::nullopt )
+		  , m_erased( range_size, false ) {}
 
 		std::uint64_t insert( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
@@ -75,10 +78,11 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			m_indices[*index] = std::nullopt;
+			m_erased[*index] = true;
 			return index;
 		}
 
-- 
2.43.0


From 22aff143109fa9c4a0716e618b9c7b20158425eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 076/267] fix: visiting a variant without a value was not
 noticed

---
 include/daw/daw_visit.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..93ecf81 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -85,18 +85,6 @@ namespace daw {
 			return v.index( );
 		}
 
-	  DAW_MAKE_REQ_TRAIT( has_variant_npos, T::variant_npos );
-	  
-    template<typename Variant, std::enable_if_t<has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const & v ) {
-		  return v.index( ) == Variant::variant_npos;
-		}
-
-    template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
-		}
-	  
 		template<typename>
 		struct get_var_size;
 
@@ -109,6 +97,13 @@ namespace daw {
 		inline constexpr size_t get_var_size_v =
 		  get_var_size<daw::remove_cvref_t<Variant>>::value;
 
+		// The index of a variant without a value is not that of an alternative
+		template<typename Variant>
+		DAW_ATTRIB_FLATINLINE constexpr bool is_empty( Variant const &v ) {
+			return static_cast<std::size_t>( get_index( v ) ) >=
+			       get_var_size_v<Variant>;
+		}
+
 		// A simple overload class that is constructed via aggregate.
 		template<typename... Fs>
 		struct overload_t : Fs... {
@@ -401,7 +396,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 6351769ac3efa0633325ed7304dc7de5b7eb2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 077/267] fix: visiting an rvalue variant gave the visitor an
 lvalue

---
 include/daw/daw_visit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93ecf81..76d6c41 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -57,7 +57,7 @@ namespace daw {
 			using get_nt_details::get_if;
 			auto *ptr = get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( std::is_rvalue_reference_v<Variant &&> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
@@ -65,7 +65,7 @@ namespace daw {
 		} else if constexpr( get_nt_details::has_std_get_if_v<variant_t> ) {
 			auto *ptr = std::get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( std::is_rvalue_reference_v<Variant &&> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
-- 
2.43.0


From 275e972fac3b7b4b9e6b344d465b6afaf44e2e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 078/267] fix: a visitor that could not be copied terminated
 the program

---
 include/daw/daw_visit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 76d6c41..cf4f561 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -114,7 +114,7 @@ namespace daw {
 
 		template<typename F, typename... Fs>
 		[[nodiscard]] DAW_ATTRIB_FLATINLINE constexpr decltype( auto )
-		overload( F &&f, Fs &&...fs ) noexcept {
+		overload( F &&f, Fs &&...fs ) {
 			if constexpr( sizeof...( Fs ) > 0 ) {
 				return overload_t{ daw::traits::lift_func( DAW_FWD( f ) ),
 				                   daw::traits::lift_func( DAW_FWD( fs ) )... };
-- 
2.43.0


From 4b1c14b85bf1b862a85c2566ddf7595c88065ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 079/267] fix: casting a variant without a value was not
 noticed

---
 include/daw/daw_variant_cast.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_variant_cast.h b/include/daw/daw_variant_cast.h
index 6afe870..f0fb060 100644
--- a/include/daw/daw_variant_cast.h
+++ b/include/daw/daw_variant_cast.h
@@ -60,30 +60,36 @@ namespace daw {
 	constexpr T variant_cast( std::variant<Args...> &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> const &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> &&var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( std::move( var ), impl::variant_visitor_t<T>{ } );
+		return daw::visit( std::move( var ), impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> const &var ) noexcept {
+		if( var.valueless_by_exception( ) ) {
+			return false;
+		}
 		return daw::visit_nt( var, impl::can_variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> &&var ) noexcept {
+		if( var.valueless_by_exception( ) ) {
+			return false;
+		}
 		return daw::visit_nt( std::move( var ), impl::can_variant_visitor_t<T>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From 60a2cac4f77ace3c1911a91ffc136feb267f56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 080/267] fix: dereferencing a poly_var copied the value

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 33fad9f096e61e42a175e832fedb737164889c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 081/267] fix: storing in a union_pair assigned to a value that
 was not there, and lost a value whose assignment failed

---
 include/daw/daw_union_pair.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..d4e81c4 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -10,6 +10,7 @@
 
 #include "ciso646.h"
 #include "cpp_17.h"
+#include "daw_construct_at.h"
 #include "daw_exception.h"
 #include "daw_move.h"
 #include "daw_unreachable.h"
@@ -81,11 +82,18 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
+			}
+			if( type == data_types::type_nothing ) {
+				daw::construct_at<Type0>( get_type0_ptr( ), DAW_FWD( value ) );
+			} else {
+				// value may be part of what is held
+				auto tmp = Type0( DAW_FWD( value ) );
 				clear( );
+				daw::construct_at<Type0>( get_type0_ptr( ), std::move( tmp ) );
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +102,18 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
+			}
+			if( type == data_types::type_nothing ) {
+				daw::construct_at<Type1>( get_type1_ptr( ), DAW_FWD( value ) );
+			} else {
+				// value may be part of what is held
+				auto tmp = Type1( DAW_FWD( value ) );
 				clear( );
+				daw::construct_at<Type1>( get_type1_ptr( ), std::move( tmp ) );
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From c64286c56c6fc346997010f2c091b9cc9566dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 082/267] fix: a throwing move into a union_pair terminated the
 program

---
 include/daw/daw_union_pair.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index d4e81c4..4e8f132 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <type_traits>
 #include <utility>
 
 namespace daw {
@@ -34,6 +35,11 @@ namespace daw {
 
 		data_types type = data_types::type_nothing;
 
+		template<typename T>
+		static constexpr bool is_nothrow_store_v =
+		  std::is_nothrow_move_constructible_v<T> and
+		  std::is_nothrow_move_assignable_v<T>;
+
 		constexpr Type0 *get_type0_ptr( ) noexcept {
 			return &value0;
 		}
@@ -129,7 +135,8 @@ namespace daw {
 			return static_cast<uint_least8_t>( type );
 		}
 
-		constexpr union_pair_t( Type0 &&ptr ) noexcept
+		constexpr union_pair_t( Type0 &&ptr ) noexcept(
+		  std::is_nothrow_move_constructible_v<Type0> )
 		  : type( data_types::type_nothing ) {
 
 			store_type0( std::move( ptr ) );
@@ -146,7 +153,8 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr union_pair_t &operator=( Type0 &&val ) noexcept {
+		constexpr union_pair_t &operator=( Type0 &&val ) noexcept(
+		  is_nothrow_store_v<Type0> ) {
 			store_type0( std::move( val ) );
 			return *this;
 		}
@@ -156,12 +164,14 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr union_pair_t &operator=( Type1 &&val ) noexcept {
+		constexpr union_pair_t &operator=( Type1 &&val ) noexcept(
+		  is_nothrow_store_v<Type1> ) {
 			store_type1( std::move( val ) );
 			return *this;
 		}
 
-		constexpr union_pair_t( Type1 &&ptr ) noexcept
+		constexpr union_pair_t( Type1 &&ptr ) noexcept(
+		  std::is_nothrow_move_constructible_v<Type1> )
 		  : type( data_types::type_nothing ) {
 
 			store_type1( std::move( ptr ) );
@@ -191,7 +201,9 @@ namespace daw {
 			}
 		}
 
-		constexpr union_pair_t( union_pair_t &&other ) noexcept
+		constexpr union_pair_t( union_pair_t &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<Type0> and
+		  std::is_nothrow_move_constructible_v<Type1> )
 		  : type( data_types::type_nothing ) {
 
 			switch( other.type ) {
@@ -228,7 +240,8 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr union_pair_t &operator=( union_pair_t &&rhs ) noexcept {
+		constexpr union_pair_t &operator=( union_pair_t &&rhs ) noexcept(
+		  is_nothrow_store_v<Type0> and is_nothrow_store_v<Type1> ) {
 			if( this != &rhs ) {
 				switch( rhs.type ) {
 				case data_types::type_0:
-- 
2.43.0


From ccd7ce57fcf9ead77c7e30d2a6327aa51eb2d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 083/267] fix: reading a member through a daw::optional did not
 compile

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From b8503364f4a7389523930104a86ce4ef48ea21f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 084/267] fix: value >= optional compared the wrong way around

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..3b3bdbe 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From e40f01a2ed3468a97a38a39900b7775bd8f72873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 085/267] fix: a throwing move out of a validated value
 terminated the program

---
 include/daw/daw_validated.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_validated.h b/include/daw/daw_validated.h
index 1f9c106..60653b0 100644
--- a/include/daw/daw_validated.h
+++ b/include/daw/daw_validated.h
@@ -85,7 +85,8 @@ namespace daw {
 			return m_value;
 		}
 
-		constexpr value_t get( ) && noexcept {
+		constexpr value_t
+		get( ) && noexcept( std::is_nothrow_move_constructible_v<value_t> ) {
 			return std::move( m_value );
 		}
 
-- 
2.43.0


From ad603f0376b702b2854ec038d8993c19ba0eace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 086/267] fix: copying or assigning to a moved from heap_value
 dereferenced a null pointer

---
 include/daw/deprecated/daw_heap_value.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 1044e4f..40916d6 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -37,11 +37,17 @@ namespace daw {
 		heap_value &operator=( heap_value && ) = default;
 
 		heap_value( heap_value const &other )
-		  : m_value{ std::make_unique<value_t>( *other.m_value ) } {}
+		  : m_value{ other.m_value ? std::make_unique<value_t>( *other.m_value )
+		                           : nullptr } {}
 
 		heap_value &operator=( heap_value const &rhs ) {
 			if( this != &rhs ) {
-				*m_value = *rhs.m_value;
+				if( m_value and rhs.m_value ) {
+					*m_value = *rhs.m_value;
+				} else {
+					m_value =
+					  rhs.m_value ? std::make_unique<value_t>( *rhs.m_value ) : nullptr;
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From 718c7498f8d56740fe4f7510a593132c6fdf4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 087/267] fix: copying a heap_value that is not const did not
 compile

---
 include/daw/deprecated/daw_heap_value.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 40916d6..875a157 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -55,14 +55,14 @@ namespace daw {
 		// Make this less perfect so that we can still do copy/move construction
 		template<
 		  typename Arg,
-		  typename = std::enable_if_t<daw::traits::not_self<Arg, value_t>( )>>
+		  typename = std::enable_if_t<daw::traits::not_self<Arg, heap_value>( )>>
 		heap_value( Arg &&arg )
 		  : m_value{ std::make_unique<value_t>( DAW_FWD( arg ) ) } {}
 
-		template<typename Arg, typename... Args>
-		heap_value( Arg &&arg, Args &&...args )
-		  : m_value{
-		      std::make_unique<value_t>( DAW_FWD( arg ), DAW_FWD( args )... ) } {}
+		template<typename Arg0, typename Arg1, typename... Args>
+		heap_value( Arg0 &&arg0, Arg1 &&arg1, Args &&...args )
+		  : m_value{ std::make_unique<value_t>(
+		      DAW_FWD( arg0 ), DAW_FWD( arg1 ), DAW_FWD( args )... ) } {}
 
 		void swap( heap_value &rhs ) noexcept {
 			daw::cswap( m_value, rhs.m_value );
-- 
2.43.0


From b80c03ac50697f34c1e68ed07242d4332bf88083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 088/267] fix: calling a heap_value indexed the value

---
 include/daw/deprecated/daw_heap_value.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_value.h b/include/daw/deprecated/daw_heap_value.h
index 875a157..d613c07 100644
--- a/include/daw/deprecated/daw_heap_value.h
+++ b/include/daw/deprecated/daw_heap_value.h
@@ -112,12 +112,12 @@ namespace daw {
 
 		template<typename... Args>
 		auto operator( )( Args &&...args ) {
-			return m_value->operator[]( DAW_FWD( args )... );
+			return ( *m_value )( DAW_FWD( args )... );
 		}
 
 		template<typename... Args>
 		auto operator( )( Args &&...args ) const {
-			return m_value->operator[]( DAW_FWD( args )... );
+			return std::as_const( *m_value )( DAW_FWD( args )... );
 		}
 	};
 
-- 
2.43.0


From 37020bfdf31cc928ddd5f8de3624b0f8e9c9e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 089/267] fix: assigning an object of a derived class to an
 optional_poly sliced it

---
 include/daw/deprecated/daw_optional_poly.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index 0b3e997..ff559dc 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -117,7 +117,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( T const &value ) {
-			m_value.reset( new value_type{ value } );
+			m_value.reset( new T{ value } );
 			return *this;
 		}
 
-- 
2.43.0


From 44fc4511edf6a078bfa207adb2a23156b8d88ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 090/267] fix: moving from an optional_poly of a derived class
 did not compile

---
 include/daw/deprecated/daw_optional_poly.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index ff559dc..cfefdd9 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -106,9 +106,7 @@ namespace daw {
 		                            std::is_same<value_type, T>::value ),
 		                          std::nullptr_t> = nullptr>
 		optional_poly &operator=( optional_poly<T> &&rhs ) {
-			if( this != static_cast<optional_poly *>( &rhs ) ) {
-				m_value.reset( rhs.m_value.release( ) );
-			}
+			m_value.reset( rhs.m_value.release( ) );
 			return *this;
 		}
 
-- 
2.43.0


From 9bf066686d96734692dac9317aaa9d3217514b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 091/267] fix: two empty optional_polys were ordered as if they
 differed

---
 include/daw/deprecated/daw_optional_poly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_optional_poly.h b/include/daw/deprecated/daw_optional_poly.h
index cfefdd9..048734e 100644
--- a/include/daw/deprecated/daw_optional_poly.h
+++ b/include/daw/deprecated/daw_optional_poly.h
@@ -209,7 +209,7 @@ namespace daw {
 			}
 			return false;
 		}
-		return true;
+		return static_cast<bool>( rhs );
 	}
 
 	template<typename T>
@@ -245,7 +245,7 @@ namespace daw {
 			}
 			return true;
 		}
-		return false;
+		return not rhs;
 	}
 
 } // namespace daw
-- 
2.43.0


From 9ddfe80ad56c14aef86dfabd7a0f95e2e0b6a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 092/267] fix: making or copying a copiable_unique_ptr
 terminated the program when memory ran out

---
 include/daw/deprecated/daw_copiable_unique_ptr.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index 6e410af..45935c4 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -32,9 +32,7 @@ namespace daw {
 		pointer m_value = nullptr;
 
 		template<typename U = value_type, typename... Args>
-		static pointer make_ptr( Args &&...args ) noexcept(
-		  std::is_nothrow_constructible_v<value_type, Args...> ) {
-
+		static pointer make_ptr( Args &&...args ) {
 			return new U( DAW_FWD( args )... );
 		}
 		struct private_constructor {};
@@ -131,9 +129,7 @@ namespace daw {
 	}
 
 	template<typename T, typename... Args>
-	copiable_unique_ptr<T> make_copiable_unique_ptr( Args &&...args ) noexcept(
-	  std::is_nothrow_constructible_v<T, Args...> ) {
-
+	copiable_unique_ptr<T> make_copiable_unique_ptr( Args &&...args ) {
 		auto ptr = new T( DAW_FWD( args )... );
 		return { ptr };
 	}
-- 
2.43.0


From e2fc6c67f6bb5a44c6c3aa489a974574c12fa178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 093/267] fix: comparing a copiable_unique_ptr with nullptr,
 and ordering two, did not compile

---
 .../daw/deprecated/daw_copiable_unique_ptr.h  | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/daw/deprecated/daw_copiable_unique_ptr.h b/include/daw/deprecated/daw_copiable_unique_ptr.h
index 45935c4..91013f3 100644
--- a/include/daw/deprecated/daw_copiable_unique_ptr.h
+++ b/include/daw/deprecated/daw_copiable_unique_ptr.h
@@ -140,13 +140,13 @@ namespace daw {
 		return lhs.get( ) == rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 		return !lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator==( std::nullptr_t,
 	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 		return !rhs;
@@ -159,16 +159,16 @@ namespace daw {
 		return lhs.get( ) != rhs.get( );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator!=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return static_cast<bool>( lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator!=( std::nullptr_t,
-	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
+	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
 		return static_cast<bool>( rhs );
 	}
@@ -177,24 +177,24 @@ namespace daw {
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
 		using CT =
-		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::pointer,
-		                     typename copiable_unique_ptr<T2, D2>::pointer>;
-		return std::less<CT>( lhs.get( ), rhs.get( ) );
+		  std::common_type_t<typename copiable_unique_ptr<T1, D1>::const_pointer,
+		                     typename copiable_unique_ptr<T2, D2>::const_pointer>;
+		return std::less<CT>{ }( lhs.get( ), rhs.get( ) );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>( lhs.get( ),
-		                                                                 nullptr );
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
+		  lhs.get( ), nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<( std::nullptr_t,
 	                          copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
-		return std::less<typename copiable_unique_ptr<T1, D1>::pointer>(
+		return std::less<typename copiable_unique_ptr<T1, D1>::const_pointer>{ }(
 		  nullptr, rhs.get( ) );
 	}
 
@@ -204,16 +204,16 @@ namespace daw {
 		return !( rhs < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( nullptr < lhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator<=( std::nullptr_t,
-	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
+	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
 		return !( rhs < nullptr );
 	}
@@ -224,16 +224,16 @@ namespace daw {
 		return rhs < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>( copiable_unique_ptr<T1, D1> const &lhs,
 	                          std::nullptr_t ) noexcept {
 
 		return nullptr < lhs;
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>( std::nullptr_t,
-	                          copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
+	                          copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
 		return rhs < nullptr;
 	}
@@ -244,16 +244,16 @@ namespace daw {
 		return !( lhs < rhs );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>=( copiable_unique_ptr<T1, D1> const &lhs,
 	                           std::nullptr_t ) noexcept {
 
 		return !( lhs < nullptr );
 	}
 
-	template<typename T1, typename D1, typename T2, typename D2>
+	template<typename T1, typename D1>
 	constexpr bool operator>=( std::nullptr_t,
-	                           copiable_unique_ptr<T2, D2> const &rhs ) noexcept {
+	                           copiable_unique_ptr<T1, D1> const &rhs ) noexcept {
 
 		return !( nullptr < rhs );
 	}
-- 
2.43.0


From 4f29ea90b318dae897e49c32ec5d3d7286a9fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 094/267] fix: nullopt >= optional was the wrong way around

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 3b3bdbe..1526d89 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
-- 
2.43.0


From be26a6ae5a5ec7af7c5d1fa0ff5fb60ed060c95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:22 +0000
Subject: [PATCH 095/267] fix: safe_advance did not compile for iterators that
 are not random access

---
 include/daw/daw_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..d176a49 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -88,7 +88,7 @@ namespace daw {
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
-		           not traits::is_random_access_iterator<Iterator>> = nullptr>
+		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -103,7 +103,7 @@ namespace daw {
 		template<
 		  typename Iterator, typename Iterator2, typename Iterator3,
 		  typename Distance,
-		  daw::enable_when_t<traits::is_random_access_iterator<Iterator>> = nullptr>
+		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
-- 
2.43.0


From 03836fa3e339eff7a6f68e9b2e89b6271dfd8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 096/267] fix: container transform to an output iterator did
 not compile, or returned nothing

---
 include/daw/daw_container_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..e0e4ce7 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,9 +299,9 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
+		static_assert( std::is_assignable_v<decltype( *first_out ),
+		                                    decltype( unary_operator(
+		                                      *std::cbegin( container ) ) )>,
 		               "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
@@ -324,8 +324,8 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		std::transform( std::cbegin( container ), std::cend( container ), first_out,
-		                unary_operator );
+		return std::transform( std::cbegin( container ), std::cend( container ),
+		                       first_out, unary_operator );
 	}
 
 	template<typename Container, typename UnaryOperator,
-- 
2.43.0


From bb9f82404b165acbb5e30270fa228f87db86f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 097/267] fix: max_element of a container without a comparison
 could not be called

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index e0e4ce7..c63cd87 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -328,7 +328,7 @@ namespace daw::container {
 		                       first_out, unary_operator );
 	}
 
-	template<typename Container, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container &container ) noexcept(
@@ -339,7 +339,7 @@ namespace daw::container {
 		                                    std::cend( container ) );
 	}
 
-	template<typename Container, typename OutputIterator, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container const &container ) noexcept(
-- 
2.43.0


From a6203b7ef55c3aa0445531bbe7e289ca7077bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 098/267] fix: for_each_subset rejected functions that take the
 container by reference

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index c63cd87..3e5cec0 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -545,13 +545,13 @@ namespace daw::container {
 	template<typename Container, typename Function>
 	constexpr void for_each_subset(
 	  Container &container, size_t first, size_t const last,
-	  Function func ) noexcept( traits::is_nothrow_callable_v<Function, Container,
+	  Function func ) noexcept( traits::is_nothrow_callable_v<Function, Container &,
 	                                                          size_t> ) {
 
 		static_assert( traits::has_integer_subscript_v<Container>,
 		               "Container is required to have a subscript operator that "
 		               "takes integral types" );
-		static_assert( std::is_invocable_v<Function, Container, size_t>,
+		static_assert( std::is_invocable_v<Function, Container &, size_t>,
 		               "Supplied function does not satisfy requirements of "
 		               "taking arguments of type (Container, size_t)" );
 
-- 
2.43.0


From 127235d893c4b5cf81bb71806a7b5d9ab3c48993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 099/267] fix: transform_n with an operation that takes the
 position did not compile

---
 include/daw/daw_algorithm.h | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d176a49..59801a3 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -999,6 +999,19 @@ namespace daw::algorithm {
 		return first_out;
 	}
 
+	namespace algorithm_details {
+		template<typename UnaryOperation, typename Reference>
+		constexpr decltype( auto ) transform_n_op( UnaryOperation &unary_op,
+		                                           Reference &&value, size_t n ) {
+			if constexpr( std::is_invocable_v<UnaryOperation &, Reference> ) {
+				(void)n;
+				return unary_op( DAW_FWD( value ) );
+			} else {
+				return unary_op( DAW_FWD( value ), n );
+			}
+		}
+	} // namespace algorithm_details
+
 	/// @brief Run the transform function unary_op on n elements of range
 	/// started by first
 	/// @tparam InputIterator input range iterator type
@@ -1014,10 +1027,8 @@ namespace daw::algorithm {
 	/// @return last item in output range
 	template<typename InputIterator, typename OutputIterator,
 	         typename UnaryOperation>
-	constexpr auto transform_n(
-	  InputIterator first, OutputIterator first_out, size_t count,
-	  UnaryOperation unary_op ) noexcept( noexcept( *first_out =
-	                                                  unary_op( *first ) ) ) {
+	constexpr auto transform_n( InputIterator first, OutputIterator first_out,
+	                            size_t count, UnaryOperation unary_op ) {
 
 		traits::is_input_iterator_test<InputIterator>( );
 		static_assert(
@@ -1027,19 +1038,12 @@ namespace daw::algorithm {
 		  "dereferenced type of first or with an addditional argument of "
 		  "size_t" );
 
-		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( unary_op( *first ) )>( );
+		traits::is_output_iterator_test<
+		  OutputIterator, decltype( algorithm_details::transform_n_op(
+		                    unary_op, *first, size_t{ } ) )>( );
 
-		if constexpr( std::is_invocable_v<UnaryOperation, decltype( *first )> ) {
-			while( count-- > 0 ) {
-				*first_out = unary_op( *first );
-				++first;
-				++first_out;
-			}
-		} else {
-			for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
-				*first_out = *unary_op( *first, n );
-			}
+		for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
+			*first_out = algorithm_details::transform_n_op( unary_op, *first, n );
 		}
 		struct result_t {
 			InputIterator input;
-- 
2.43.0


From 4b12e4f03ddc745e0865ecf238bbc19a9f023668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 100/267] fix: convert_copy could not be called, and
 convert_copy_n returned nothing

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 59801a3..db57623 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2129,13 +2129,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2147,6 +2148,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 30c4464541e2ae757c129225937cd042feed1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 101/267] fix: gather returned the wrong type and did not
 compile

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index db57623..bae5958 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -509,7 +509,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 7fe0e48fba0647e68e1a9fd7a1a36948a306426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 102/267] fix: accumulate terminated when adding an element
 threw

---
 include/daw/algorithms/daw_algorithm_accumulate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/algorithms/daw_algorithm_accumulate.h b/include/daw/algorithms/daw_algorithm_accumulate.h
index a8a13c2..c4e4702 100644
--- a/include/daw/algorithms/daw_algorithm_accumulate.h
+++ b/include/daw/algorithms/daw_algorithm_accumulate.h
@@ -35,7 +35,8 @@ namespace daw::algorithm {
 	} // namespace accum_impl
 	template<typename InputIterator, typename T>
 	constexpr auto
-	accumulate( InputIterator first, InputIterator last, T init ) noexcept {
+	accumulate( InputIterator first, InputIterator last, T init ) noexcept(
+	  noexcept( init = std::move( init ) + *first ) ) {
 		DAW_UNSAFE_BUFFER_FUNC_START
 		for( ; first != last; ++first ) {
 			init = std::move( init ) + *first;
-- 
2.43.0


From e342b780b14c49f04935ce7708635b492a1dfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 103/267] fix: fill and fill_n terminated when an assignment
 threw

---
 include/daw/daw_algorithm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index bae5958..fedc4d4 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1428,7 +1428,8 @@ namespace daw::algorithm {
 
 	template<typename ForwardIterator, typename T>
 	constexpr ForwardIterator fill_n( ForwardIterator first, size_t count,
-	                                  T &&value ) noexcept {
+	                                  T &&value ) noexcept( noexcept( *first =
+	                                                                    value ) ) {
 
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 
@@ -1441,7 +1442,7 @@ namespace daw::algorithm {
 
 	template<typename ForwardIterator, typename LastType, typename T>
 	constexpr void fill( ForwardIterator first, LastType last,
-	                     T &&value ) noexcept {
+	                     T &&value ) noexcept( noexcept( *first = value ) ) {
 
 		traits::is_forward_access_iterator_test<ForwardIterator>( );
 		while( first != last ) {
-- 
2.43.0


From 8974a887162f8cd0c2396aeefc855ed0a1c694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 104/267] fix: min_item, max_item, minmax_item and clamp
 terminated when a comparison threw

---
 include/daw/daw_algorithm.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index fedc4d4..6daf4f2 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -253,7 +253,7 @@ namespace daw::algorithm {
 
 	template<typename Lhs, typename... Ts,
 	         daw::enable_when_t<( sizeof...( Ts ) > 0 )> = nullptr>
-	constexpr auto const &min_item( Lhs const &lhs, Ts const &...ts ) noexcept {
+	constexpr auto const &min_item( Lhs const &lhs, Ts const &...ts ) {
 		auto const &rhs = min_item( ts... );
 		return lhs < rhs ? lhs : rhs;
 	}
@@ -265,7 +265,7 @@ namespace daw::algorithm {
 
 	template<typename Lhs, typename... Ts,
 	         daw::enable_when_t<( sizeof...( Ts ) > 0 )> = nullptr>
-	constexpr auto const &max_item( Lhs const &lhs, Ts const &...ts ) noexcept {
+	constexpr auto const &max_item( Lhs const &lhs, Ts const &...ts ) {
 		auto const &rhs = max_item( ts... );
 		return lhs > rhs ? lhs : rhs;
 	}
@@ -514,7 +514,7 @@ namespace daw::algorithm {
 
 	template<typename T>
 	constexpr T clamp( T &&value,
-	                   daw::traits::identity_t<T> &&max_value ) noexcept {
+	                   daw::traits::identity_t<T> &&max_value ) {
 		if( value > max_value ) {
 			return DAW_FWD( max_value );
 		}
@@ -1637,7 +1637,9 @@ namespace daw::algorithm {
 	/// and second max(a, b)
 	template<typename T, typename Compare = std::less<>>
 	constexpr iterator_pair<T, T>
-	minmax_item( T a, T b, Compare comp = Compare{ } ) noexcept {
+	minmax_item( T a, T b, Compare comp = Compare{ } ) noexcept(
+	  noexcept( daw::invoke( comp, b, a ) ) and
+	  std::is_nothrow_move_constructible_v<T> ) {
 		static_assert( traits::is_compare_v<Compare, T>,
 		               "Compare function does not meet the requirements of the "
 		               "Compare concept. "
-- 
2.43.0


From 6add4e83f8f59383e8a02af528c53142436c8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 105/267] fix: remove_if and consume_if terminated when a move
 or the function threw

---
 include/daw/daw_algorithm.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 6daf4f2..a9675d7 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1773,8 +1773,9 @@ namespace daw::algorithm {
 	template<class ForwardIterator, class UnaryPredicate>
 	constexpr ForwardIterator remove_if(
 	  ForwardIterator first, ForwardIterator last,
-	  UnaryPredicate &&pred ) noexcept( noexcept( daw::invoke( pred,
-	                                                           *first ) ) ) {
+	  UnaryPredicate &&pred ) noexcept( noexcept( daw::invoke( pred, *first ) ) and
+	                                    noexcept( *first =
+	                                                std::move( *first ) ) ) {
 		first = daw::algorithm::find_if( first, last, pred );
 		if( first != last ) {
 			for( ForwardIterator i = first; ++i != last; ) {
@@ -1790,7 +1791,9 @@ namespace daw::algorithm {
 	template<class ForwardIterator, class UnaryPredicate, typename Function>
 	constexpr ForwardIterator consume_if(
 	  ForwardIterator first, ForwardIterator last, UnaryPredicate &&pred,
-	  Function &&func ) noexcept( noexcept( daw::invoke( pred, *first ) ) ) {
+	  Function &&func ) noexcept( noexcept( daw::invoke( pred, *first ) ) and
+	                              noexcept( daw::invoke( func, *first ) ) and
+	                              noexcept( *first = std::move( *first ) ) ) {
 		first = daw::algorithm::find_if( first, last, pred );
 		if( first != last ) {
 			for( ForwardIterator i = first; ++i != last; ) {
-- 
2.43.0


From 99889d9116dd805856339ed3a3b255cf712776fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:56 +0000
Subject: [PATCH 106/267] fix: set_intersection terminated when writing to its
 output threw

---
 include/daw/daw_algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a9675d7..b48e3f0 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1719,7 +1719,8 @@ namespace daw::algorithm {
 	  LastType2 last2, OutputIterator d_first,
 	  Compare &&comp =
 	    Compare{ } ) noexcept( noexcept( comp( *first2, *first1 ) ) and
-	                           noexcept( comp( *first1, *first2 ) ) ) {
+	                           noexcept( comp( *first1, *first2 ) ) and
+	                           noexcept( *d_first = *first1 ) ) {
 
 		while( first1 != last1 and first2 != last2 ) {
 			if( daw::invoke( comp, *first1, *first2 ) ) {
-- 
2.43.0


From 9f5488b7cb03bd5cadd5cdb637b46e9e04f30b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:03 +0000
Subject: [PATCH 107/267] fix: transform and map_reduce terminated when an
 operation they did not account for threw

---
 include/daw/daw_algorithm.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index b48e3f0..adcf035 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1070,10 +1070,9 @@ namespace daw::algorithm {
 	         typename UnaryOperation>
 	constexpr OutputIterator transform(
 	  InputIterator first, LastType last, OutputIterator first_out,
-	  UnaryOperation unary_op ) noexcept( std::
-	                                        is_nothrow_constructible_v<
-	                                          decltype( *first_out ),
-	                                          decltype( unary_op( *first ) )> ) {
+	  UnaryOperation
+	    unary_op ) noexcept( noexcept( *first_out =
+	                                     daw::invoke( unary_op, *first ) ) ) {
 
 		static_assert( std::is_assignable_v<decltype( *first_out ),
 		                                    decltype( unary_op( *first ) )>,
@@ -1529,9 +1528,10 @@ namespace daw::algorithm {
 	constexpr T map_reduce(
 	  InputIterator1 first1, InputIterator1Last last1, InputIterator2 first2,
 	  T init, ReduceFunction reduce_func,
-	  MapFunction map_func ) noexcept( noexcept( reduce_func( init,
-	                                                          map_func(
-	                                                            *first1,
+	  MapFunction
+	    map_func ) noexcept( noexcept( init =
+	                                     reduce_func( std::move( init ),
+	                                                  map_func( *first1,
 	                                                            *first2 ) ) ) ) {
 
 		static_assert( traits::is_iterator_v<InputIterator1>,
-- 
2.43.0


From a1074316fef14dae8eb43317ddfdbc2aa88fe08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:36 +0000
Subject: [PATCH 108/267] fix: advance, next and prev moved bidirectional
 iterators backwards one step too few

---
 include/daw/cpp_17_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 822c211..51272eb 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -66,7 +66,7 @@ namespace daw {
 					++first;
 				}
 			} else {
-				while( ++n < 0 ) {
+				while( n++ < 0 ) {
 					--first;
 				}
 			}
-- 
2.43.0


From 8dd1231d82db0c70b9438ae11d4b85266a3834fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:36 +0000
Subject: [PATCH 109/267] fix: next and prev terminated when stepping the
 iterator threw

---
 include/daw/cpp_17_iterator.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 51272eb..8ae6bc3 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -121,8 +121,11 @@ namespace daw {
 	/// @param n how far to move forward
 	/// @return The resulting iterator of advancing it n steps
 	template<typename Iterator>
-	[[nodiscard]] constexpr Iterator next( Iterator it,
-	                                       ptrdiff_t n = 1 ) noexcept {
+	[[nodiscard]] constexpr Iterator
+	next( Iterator it, ptrdiff_t n = 1 ) noexcept( noexcept(
+	  cpp_17_details::advance(
+	    it, n,
+	    typename std::iterator_traits<Iterator>::iterator_category{ } ) ) ) {
 
 		cpp_17_details::advance(
 		  it, n, typename std::iterator_traits<Iterator>::iterator_category{ } );
@@ -136,8 +139,11 @@ namespace daw {
 	/// @param n how far to move backward
 	/// @return The resulting iterator of advancing it n steps
 	template<typename Iterator>
-	[[nodiscard]] constexpr Iterator prev( Iterator it,
-	                                       ptrdiff_t n = 1 ) noexcept {
+	[[nodiscard]] constexpr Iterator
+	prev( Iterator it, ptrdiff_t n = 1 ) noexcept( noexcept(
+	  cpp_17_details::advance(
+	    it, -n,
+	    typename std::iterator_traits<Iterator>::iterator_category{ } ) ) ) {
 
 		cpp_17_details::advance(
 		  it, -n, typename std::iterator_traits<Iterator>::iterator_category{ } );
-- 
2.43.0


From 09032533c338d78e02d13f39a7f42a8caa0fa815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 110/267] fix: extract_matching used an iterator after its
 element was extracted

---
 include/daw/daw_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index adcf035..dce3d13 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1921,11 +1921,11 @@ namespace daw::algorithm {
 		auto it = std::begin( from );
 		while( it != std::end( from ) ) {
 			if( daw::invoke( pred, *it ) ) {
-				// Iterator is invalidated inside extract_to,
-				// incrementing here ensures that we do not have an
-				// iterator to the current item
-				extract_to( from, to, it );
+				// The iterator is invalidated by extract, incrementing first ensures
+				// that we do not have an iterator to the current item
+				auto const pos = it;
 				++it;
+				to.insert( from.extract( pos ) );
 			} else {
 				++it;
 			}
-- 
2.43.0


From db29ceb5aeff4f3b9c1ea39e4b218ea96c101762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 111/267] fix: split left out what follows the last separator

---
 include/daw/daw_algorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index dce3d13..e8c17cf 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -590,6 +590,7 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		result.push_back( std::move( temp ) );
 		return result;
 	}
 
-- 
2.43.0


From 2a5c5ef0328327b2dd34c7c74ac8ee7bacbe764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 112/267] fix: are_equal of three or more values did not
 compare the second with the third

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index e8c17cf..1925976 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From 605fc34e45b913e7b0917abceda6628443dfe36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 113/267] fix: in_range checked its bounds after they had been
 moved from

---
 include/daw/daw_algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 1925976..48b0345 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -726,7 +726,8 @@ namespace daw::algorithm {
 			  : m_lower( DAW_FWD( lower ) )
 			  , m_upper( DAW_FWD( upper ) ) {
 
-				daw::exception::precondition_check<std::out_of_range>( lower <= upper );
+				daw::exception::precondition_check<std::out_of_range>( m_lower <=
+				                                                       m_upper );
 			}
 
 			template<typename T>
-- 
2.43.0


From 603829c8a5cce246a81b667482f5f1241900e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:17 +0000
Subject: [PATCH 114/267] fix: find_unsorted of an empty range was undefined

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 48b0345..0646358 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2002,6 +2002,9 @@ namespace daw::algorithm {
 	template<typename RandomIterator, typename Compare = std::less<>>
 	RandomIterator find_unsorted( RandomIterator first, RandomIterator last,
 	                              Compare comp = Compare{ } ) {
+		if( first == last ) {
+			return last;
+		}
 		auto second = std::next( first );
 		auto second_last = std::prev( last );
 
-- 
2.43.0


From cd13341d1099a0866e5e0114335d4256b0638175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:15 +0000
Subject: [PATCH 115/267] fix: not_equal of two ranges was false if any two
 elements were equal

---
 include/daw/daw_algorithm.h | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 0646358..ab7ff17 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1250,8 +1250,8 @@ namespace daw::algorithm {
 		return first1 == last1 and first2 == last2;
 	}
 
-	/// @brief Determine if two ranges [first1, last1) and [first2, last2) using
-	/// pred
+	/// @brief Determine if two ranges [first1, last1) and [first2, last2) differ
+	/// using pred
 	/// @tparam InputIterator1 type of Iterator of first input range
 	/// @tparam LastType1 type of Iterator marking end of first input range
 	/// @tparam InputIterator2 type of Iterator of second input range
@@ -1261,8 +1261,8 @@ namespace daw::algorithm {
 	/// @param last1 end of first input range
 	/// @param first2 start of second input range
 	/// @param last2 end of second input range
-	/// @param comp predicate to determine equality of elements
-	/// @return true if both ranges are equal
+	/// @param comp predicate to determine inequality of elements
+	/// @return true if the ranges are not equal
 	template<typename InputIterator1, typename LastType1, typename InputIterator2,
 	         typename LastType2, typename Compare = std::not_equal_to<>>
 	constexpr bool not_equal( InputIterator1 first1, LastType1 last1,
@@ -1274,12 +1274,14 @@ namespace daw::algorithm {
 		traits::is_compare_test<Compare, decltype( *first1 ),
 		                        decltype( *first2 )>( );
 
-		while( ( first1 != last1 ) and ( first2 != last2 ) and
-		       comp( *first1, *first2 ) ) {
+		while( ( first1 != last1 ) and ( first2 != last2 ) ) {
+			if( daw::invoke( comp, *first1, *first2 ) ) {
+				return true;
+			}
 			++first1;
 			++first2;
 		}
-		return first1 == last1 and first2 == last2;
+		return not( first1 == last1 and first2 == last2 );
 	}
 
 	/// @brief Determine if two ranges [first1, last1) and [first2, first2 +
@@ -1306,14 +1308,14 @@ namespace daw::algorithm {
 	}
 
 	/// @brief Determine if two ranges [first1, last1) and [first2, first2 +
-	/// std::distance( first1, last1 )) are equal
+	/// std::distance( first1, last1 )) differ
 	/// @tparam InputIterator1 type of Iterator of first input range
 	/// @tparam LastType type of Iterator marking end of first input range
 	/// @tparam InputIterator2 type of Iterator of second input range
 	/// @param first1 start of first input range
 	/// @param last1 end of first input range
 	/// @param first2 start of second input range
-	/// @return true if both ranges are equal
+	/// @return true if the ranges are not equal
 	template<typename InputIterator1, typename LastType, typename InputIterator2>
 	constexpr bool not_equal( InputIterator1 first1, LastType last1,
 	                          InputIterator2 first2 ) {
@@ -1321,11 +1323,14 @@ namespace daw::algorithm {
 		traits::is_input_iterator_test<InputIterator1>( );
 		traits::is_input_iterator_test<InputIterator2>( );
 
-		while( first1 != last1 and std::not_equal_to<>{ }( *first1, *first2 ) ) {
+		while( first1 != last1 ) {
+			if( std::not_equal_to<>{ }( *first1, *first2 ) ) {
+				return true;
+			}
 			++first1;
 			++first2;
 		}
-		return not( first1 != last1 );
+		return false;
 	}
 
 	/// @brief Returns an iterator pointing to the first element in the range
-- 
2.43.0


From bac093fc9eda642f65d7d4daa8fc12728db98843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 116/267] fix: accumulate with an operation terminated when
 assigning its result threw

---
 include/daw/algorithms/daw_algorithm_accumulate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/algorithms/daw_algorithm_accumulate.h b/include/daw/algorithms/daw_algorithm_accumulate.h
index c4e4702..7601b55 100644
--- a/include/daw/algorithms/daw_algorithm_accumulate.h
+++ b/include/daw/algorithms/daw_algorithm_accumulate.h
@@ -69,8 +69,9 @@ namespace daw::algorithm {
 	  LastType last,
 	  T init,
 	  BinaryOperation binary_op =
-	    BinaryOperation{ } ) noexcept( noexcept( binary_op( std::move( init ),
-	                                                        *first ) ) ) {
+	    BinaryOperation{ } ) noexcept( noexcept( init =
+	                                               binary_op( std::move( init ),
+	                                                          *first ) ) ) {
 
 		while( first != last ) {
 			init = daw::invoke( binary_op, std::move( init ), *first );
-- 
2.43.0


From d836665c73db21a7e8a11c9b25c205da8f2a0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 117/267] fix: string_view pop_back_until of a character with
 nodiscard did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..35ec17d 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1381,7 +1381,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
-- 
2.43.0


From d2541c28dafeb10400d869ce0fa613e4ecdcc314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 118/267] fix: string_view trim_suffix_copy did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 35ec17d..5950f91 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2770,7 +2770,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 8c55107d93c5f6c95979da358aa134b9a115b11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 119/267] fix: string_view remove_prefix_until of a predicate
 with nodiscard did not compile

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 5950f91..c1624ea 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1771,7 +1771,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
-- 
2.43.0


From 878645f8af40db637f3f4137523de7f6a6846897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 120/267] fix: string_view substr_unsafe read past the end and
 claimed a terminator for a view that has none

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index c1624ea..665ef9d 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1840,7 +1840,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( pos + count == size( ) and is_zero_terminated( ) ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From 95a3ce138746dafb65bcae39888f39e062855a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 121/267] fix: string_view pop_front_unsafe of a count returned
 the whole view

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 665ef9d..0e88580 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1162,7 +1162,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
-- 
2.43.0


From 017855b526dcefe0f51978dfe508fff19674bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 122/267] fix: string_view pop_back_until of a text with
 nodiscard discarded the text

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 0e88580..1c90cef 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1365,7 +1365,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( result.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From 79a82c3c18598d25246a5a5ffcf1691cac52b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 123/267] fix: string_view try_pop_back_until of a text with
 nodiscard discarded the text

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 1c90cef..57afcbd 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1614,7 +1614,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( result.size( ) );
 				return result;
 			}
 
-- 
2.43.0


From 16a01e684ae3563c1ecaba23073c7c122b6c84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 124/267] fix: string_view try_pop_back_until of a character
 with nodiscard returned the character it also kept

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 57afcbd..a573884 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1629,7 +1629,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
-- 
2.43.0


From 6eeb8dc02a01e223036fabb2464658658721bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 125/267] fix: string_view try_pop_back_until of a character
 returned the character it discards

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index a573884..726d608 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1645,7 +1645,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
-- 
2.43.0


From f7173ce4327838584eb3bc2e46fd8f2ec010a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 126/267] fix: string_view try_pop_back_until of a predicate
 returned the character it discards

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 726d608..f9dad8a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1668,7 +1668,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
-- 
2.43.0


From e0f656de79641a15664a9ae07323719d32d761d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 127/267] fix: string_view try_pop_back_until of a predicate
 with nodiscard returned the character it also kept

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index f9dad8a..9b42394 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1691,7 +1691,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos - 1 ) );
 				return result;
 			}
-- 
2.43.0


From edbbd3b8f57a67f326b4591aabe13fe55b746c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:17 +0000
Subject: [PATCH 128/267] fix: string_view get_c_str terminated when its copy
 could not be allocated

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 9b42394..0070e91 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -499,7 +499,7 @@ namespace daw {
 #endif
 			}
 
-			DAW_CPP20_CX_ALLOC c_str_proxy( CharT const *str, std::size_t N ) noexcept
+			DAW_CPP20_CX_ALLOC c_str_proxy( CharT const *str, std::size_t N )
 			  : m_str{ std::basic_string( str, N ) } {
 #if not defined( DAW_STRINGVIEW_NOZTERM_CHECK )
 				daw_dbg_ensure( N == sv2_details::strlen<std::size_t>(
-- 
2.43.0


From effb6c342398e20553ed3bf42653df0b9adc1201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 129/267] fix: string_view find of a char16_t read past the end
 where wchar_t is wider

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 0070e91..259e2be 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2006,7 +2006,7 @@ namespace daw {
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
 						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
+					} else if constexpr( sizeof( CharT ) == sizeof( wchar_t ) ) {
 						wchar_t const *r =
 						  ::wmemchr( const_cast<wchar_t *>(
 						               reinterpret_cast<wchar_t const *>( first ) ),
-- 
2.43.0


From 9bd63abc278539d1c2904c44d990e3a5ce521d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:51 +0000
Subject: [PATCH 130/267] fix: string_view find of a character from a position
 returned a position relative to it or missed the character

---
 include/daw/daw_string_view.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 259e2be..eb56678 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2005,7 +2005,7 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
-						                                 first );
+						                                 data( ) );
 					} else if constexpr( sizeof( CharT ) == sizeof( wchar_t ) ) {
 						wchar_t const *r =
 						  ::wmemchr( const_cast<wchar_t *>(
@@ -2016,11 +2016,11 @@ namespace daw {
 							return npos;
 						}
 						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
+						  reinterpret_cast<CharT const *>( r ) - data( ) );
 					} else {
-						for( std::size_t n = pos; n < sz; ++n ) {
+						for( std::size_t n = 0; n < sz; ++n ) {
 							if( first[n] == c ) {
-								return n;
+								return pos + n;
 							}
 						}
 						return npos;
@@ -2028,9 +2028,9 @@ namespace daw {
 				}
 				else {
 #endif
-					for( std::size_t n = pos; n < sz; ++n ) {
+					for( std::size_t n = 0; n < sz; ++n ) {
 						if( first[n] == c ) {
-							return n;
+							return pos + n;
 						}
 					}
 					return npos;
-- 
2.43.0


From f04dcb9780488e868c45a56e09e31da5c5014716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:11 +0000
Subject: [PATCH 131/267] fix: string_view try_pop_front_until of a predicate
 removed a character when nothing was found

---
 include/daw/daw_string_view.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index eb56678..ab9434a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1579,7 +1579,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
-- 
2.43.0


From d968999808f8e6b364bc9e458afa642f32d05995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 132/267] fix: string_view remove_prefix_while and
 remove_suffix_while terminated when the predicate threw

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index ab9434a..274b636 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2725,7 +2725,7 @@ namespace daw {
 			template<typename UnaryPred DAW_REQ_UNARY_PRED( UnaryPred, CharT )>
 			DAW_REQ_UNARY_PRED_REQ( UnaryPred, CharT )
 			DAW_ATTRIB_INLINE constexpr basic_string_view &remove_prefix_while(
-			  UnaryPred pred ) noexcept {
+			  UnaryPred pred ) {
 				auto const last_pos = find_first_not_of_if( pred );
 				remove_prefix( last_pos );
 				return *this;
@@ -2753,7 +2753,7 @@ namespace daw {
 			template<typename UnaryPred DAW_REQ_UNARY_PRED( UnaryPred, CharT )>
 			DAW_REQ_UNARY_PRED_REQ( UnaryPred, CharT )
 			DAW_ATTRIB_INLINE constexpr basic_string_view &remove_suffix_while(
-			  UnaryPred pred ) noexcept {
+			  UnaryPred pred ) {
 				auto pos = find_last_not_of_if( pred );
 				resize( pos + 1U );
 				return *this;
-- 
2.43.0


From 8efbeac3dab1592b337fdbd52ef696ed89545fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:40 +0000
Subject: [PATCH 133/267] fix: string_view contains( s, pos, count ) was false
 for a match at the start and true for none

---
 include/daw/daw_string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 274b636..af4b4ea 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2088,7 +2088,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
-- 
2.43.0


From e68d39fcb2b30977239459d135cdaebbc67010db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 134/267] fix: string_view search missed a match at the end and
 read outside for a position near npos

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index af4b4ea..5dfd131 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2214,7 +2214,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( v.empty( ) or pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
@@ -2235,7 +2235,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
+				if( v.empty( ) or pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				auto last_pos = pos;
-- 
2.43.0


From 60080a9c65272ab9d39561eb10170bf69900b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 135/267] fix: string_view search_last returned the first
 match, or the position it started from when there is none

---
 include/daw/daw_string_view.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 5dfd131..6c2d8f0 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2238,14 +2238,11 @@ namespace daw {
 				if( v.empty( ) or pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From e62190c5da88b2695a43f6274f1423fde208e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 136/267] fix: string_view find from a position past the end
 read outside the text

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 6c2d8f0..c1a8793 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2057,7 +2057,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2104,7 +2104,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From db93b51b42bbff7159aab4e4909b32c8a24e176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 137/267] fix: string_view find_last_not_of from the size read
 one character past the end

---
 include/daw/daw_string_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index c1a8793..eb33f53 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2458,7 +2458,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2482,7 +2482,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 91bf8cea7c83a4c97630dd36f61159cfcd6bbc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 138/267] fix: string_view find_first_match of several texts
 compared the later ones at the wrong place or gave up early

---
 include/daw/daw_string_view.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index eb33f53..255736a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -362,10 +362,8 @@ namespace daw {
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
 				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
@@ -373,7 +371,7 @@ namespace daw {
 								return haystack.data( );
 							}
 							if( it == last ) {
-								return last;
+								break;
 							}
 							if( not( *it == *s_it ) ) {
 								break;
-- 
2.43.0


From 106b84af4c931534faa3ce31bdcbf4ad6f0b760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 139/267] fix: contiguous_view::subspan gives the part that was
 asked for

It ended count elements after the start of the view instead of after the
offset, and an offset past the end moved the result out of the view.
For a view of mutable elements it did not compile.
---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..f0ed5e6 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( size( ), offset );
+			count = std::min( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + count );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			offset = std::min( size( ), offset );
+			count = std::min( count, size( ) - offset );
+			return contiguous_view( m_first + offset, m_first + offset + count );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From 1275a3dd87a07e46d948cda3bf40b9ac1d6b1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 140/267] fix: a contiguous_view of mutable elements can be
 moved

It had only copy operations that take a non-const lvalue, so a new view
could not be assigned and the discarding pop_front_until/pop_front_while
did not compile.
---
 include/daw/daw_contiguous_view.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index f0ed5e6..ff26af0 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -59,6 +59,10 @@ namespace daw {
 			return *this;
 		}
 
+		constexpr contiguous_view( contiguous_view && ) noexcept = default;
+		constexpr contiguous_view &
+		operator=( contiguous_view && ) noexcept = default;
+
 		constexpr contiguous_view( pointer first, pointer last ) noexcept
 		  : m_first( first )
 		  , m_last( last ) {}
-- 
2.43.0


From 7936c8185d77cf8bc33344b22f531ae45bf9ea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 141/267] fix: searching a contiguous_view lets a comparison
 throw

The searching members compare elements but were unconditionally noexcept,
so an exception from a comparison ended the program.
---
 include/daw/daw_contiguous_view.h | 64 +++++++++++++++----------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index ff26af0..53bbb53 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -283,7 +283,7 @@ namespace daw {
 
 	private:
 		[[nodiscard]] constexpr pointer
-		find_raw( const_reference needle ) noexcept {
+		find_raw( const_reference needle ) {
 			auto pos = m_first;
 			while( pos != m_last and *pos != needle ) {
 				++pos;
@@ -292,7 +292,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr const_pointer
-		find_raw( const_reference needle ) const noexcept {
+		find_raw( const_reference needle ) const {
 			auto pos = m_first;
 			while( pos != m_last and *pos != needle ) {
 				++pos;
@@ -301,7 +301,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer
-		find_first_not_of_raw( const_reference needle ) noexcept {
+		find_first_not_of_raw( const_reference needle ) {
 			auto pos = m_first;
 			while( pos != m_last and *pos == needle ) {
 				++pos;
@@ -310,7 +310,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr const_pointer
-		find_first_not_of_raw( const_reference needle ) const noexcept {
+		find_first_not_of_raw( const_reference needle ) const {
 			auto pos = m_first;
 			while( pos != m_last and *pos == needle ) {
 				++pos;
@@ -319,34 +319,34 @@ namespace daw {
 		}
 
 	public:
-		[[nodiscard]] constexpr iterator find( const_reference needle ) noexcept {
+		[[nodiscard]] constexpr iterator find( const_reference needle ) {
 			return iterator{ find_raw( needle ) };
 		}
 
 		[[nodiscard]] constexpr const_iterator
-		find( const_reference needle ) const noexcept {
+		find( const_reference needle ) const {
 			return const_iterator{ find_raw( needle ) };
 		}
 
 		[[nodiscard]] constexpr iterator
-		find_first_not_of( const_reference needle ) noexcept {
+		find_first_not_of( const_reference needle ) {
 			return iterator{ find_first_not_of_raw( needle ) };
 		}
 
 		[[nodiscard]] constexpr const_iterator
-		find_first_not_of( const_reference needle ) const noexcept {
+		find_first_not_of( const_reference needle ) const {
 			return const_iterator{ find_first_not_of_raw( needle ) };
 		}
 
 		constexpr contiguous_view &remove_prefix_until( const_reference needle,
-		                                                discard_t ) noexcept {
+		                                                discard_t ) {
 			auto pos = find_raw( needle );
 			remove_prefix( ( pos - m_first ) + 1 );
 			return *this;
 		}
 
 		constexpr contiguous_view &
-		remove_prefix_until( const_reference needle ) noexcept {
+		remove_prefix_until( const_reference needle ) {
 
 			auto pos = find_raw( needle );
 			remove_prefix( pos - m_first, dont_clip_to_bounds );
@@ -354,28 +354,28 @@ namespace daw {
 		}
 
 		constexpr contiguous_view &remove_prefix_while( const_reference needle,
-		                                                discard_t ) noexcept {
+		                                                discard_t ) {
 			auto pos = find_first_not_of_raw( needle );
 			remove_prefix( ( pos - m_first ) + 1 );
 			return *this;
 		}
 
 		constexpr contiguous_view &
-		remove_prefix_while( const_reference needle ) noexcept {
+		remove_prefix_while( const_reference needle ) {
 			auto pos = find_first_not_of_raw( needle );
 			remove_prefix( pos - m_first, dont_clip_to_bounds );
 			return *this;
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_until( const_reference needle ) noexcept {
+		pop_front_until( const_reference needle ) {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			return contiguous_view( f, m_first );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_until( const_reference needle, discard_t ) noexcept {
+		pop_front_until( const_reference needle, discard_t ) {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = contiguous_view( f, m_first );
@@ -384,14 +384,14 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_while( const_reference needle ) noexcept {
+		pop_front_while( const_reference needle ) {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			return contiguous_view( f, m_first );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_while( const_reference needle, discard_t ) noexcept {
+		pop_front_while( const_reference needle, discard_t ) {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = contiguous_view( f, m_first );
@@ -660,7 +660,7 @@ namespace daw {
 
 	private:
 		[[nodiscard]] constexpr pointer
-		find_raw( const_reference needle ) noexcept {
+		find_raw( const_reference needle ) {
 			auto pos = m_first;
 			while( pos != m_last and *pos != needle ) {
 				++pos;
@@ -669,7 +669,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr const_pointer
-		find_raw( const_reference needle ) const noexcept {
+		find_raw( const_reference needle ) const {
 			auto pos = m_first;
 			while( pos != m_last and *pos != needle ) {
 				++pos;
@@ -678,7 +678,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer
-		find_first_not_of_raw( const_reference needle ) noexcept {
+		find_first_not_of_raw( const_reference needle ) {
 			auto pos = m_first;
 			while( pos != m_last and *pos == needle ) {
 				++pos;
@@ -687,7 +687,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr const_pointer
-		find_first_not_of_raw( const_reference needle ) const noexcept {
+		find_first_not_of_raw( const_reference needle ) const {
 			auto pos = m_first;
 			while( pos != m_last and *pos == needle ) {
 				++pos;
@@ -696,34 +696,34 @@ namespace daw {
 		}
 
 	public:
-		[[nodiscard]] constexpr iterator find( const_reference needle ) noexcept {
+		[[nodiscard]] constexpr iterator find( const_reference needle ) {
 			return iterator{ find_raw( needle ) };
 		}
 
 		[[nodiscard]] constexpr const_iterator
-		find( const_reference needle ) const noexcept {
+		find( const_reference needle ) const {
 			return const_iterator{ find_raw( needle ) };
 		}
 
 		[[nodiscard]] constexpr iterator
-		find_first_not_of( const_reference needle ) noexcept {
+		find_first_not_of( const_reference needle ) {
 			return iterator{ find_first_not_of_raw( needle ) };
 		}
 
 		[[nodiscard]] constexpr const_iterator
-		find_first_not_of( const_reference needle ) const noexcept {
+		find_first_not_of( const_reference needle ) const {
 			return const_iterator{ find_first_not_of_raw( needle ) };
 		}
 
 		constexpr contiguous_view &remove_prefix_until( const_reference needle,
-		                                                discard_t ) noexcept {
+		                                                discard_t ) {
 			auto pos = find_raw( needle );
 			remove_prefix( ( pos - m_first ) + 1 );
 			return *this;
 		}
 
 		constexpr contiguous_view &
-		remove_prefix_until( const_reference needle ) noexcept {
+		remove_prefix_until( const_reference needle ) {
 
 			auto pos = find_raw( needle );
 			remove_prefix( pos - m_first, dont_clip_to_bounds );
@@ -731,28 +731,28 @@ namespace daw {
 		}
 
 		constexpr contiguous_view &remove_prefix_while( const_reference needle,
-		                                                discard_t ) noexcept {
+		                                                discard_t ) {
 			auto pos = find_first_not_of_raw( needle );
 			remove_prefix( ( pos - m_first ) + 1 );
 			return *this;
 		}
 
 		constexpr contiguous_view &
-		remove_prefix_while( const_reference needle ) noexcept {
+		remove_prefix_while( const_reference needle ) {
 			auto pos = find_first_not_of_raw( needle );
 			remove_prefix( pos - m_first, dont_clip_to_bounds );
 			return *this;
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_until( const_reference needle ) noexcept {
+		pop_front_until( const_reference needle ) {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			return contiguous_view( f, m_first );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_until( const_reference needle, discard_t ) noexcept {
+		pop_front_until( const_reference needle, discard_t ) {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = contiguous_view( f, m_first );
@@ -761,14 +761,14 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_while( const_reference needle ) noexcept {
+		pop_front_while( const_reference needle ) {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			return contiguous_view( f, m_first );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
-		pop_front_while( const_reference needle, discard_t ) noexcept {
+		pop_front_while( const_reference needle, discard_t ) {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = contiguous_view( f, m_first );
-- 
2.43.0


From 8f3bdce4998a3845ad69692ae81ca140f5388a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 142/267] fix: contiguous_view pops an element only once it is
 copied

The view had already been shortened when the element was copied, so an
element whose copy threw was lost.
---
 include/daw/daw_contiguous_view.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 53bbb53..350182c 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -273,12 +273,16 @@ namespace daw {
 
 		[[nodiscard]] constexpr value_type pop_front( ) {
 			assert( not empty( ) );
-			return *m_first++;
+			value_type result = *m_first;
+			++m_first;
+			return result;
 		}
 
 		[[nodiscard]] constexpr value_type pop_back( ) {
 			assert( not empty( ) );
-			return *( --m_last );
+			value_type result = *( m_last - 1 );
+			--m_last;
+			return result;
 		}
 
 	private:
@@ -650,12 +654,16 @@ namespace daw {
 
 		[[nodiscard]] constexpr value_type pop_front( ) {
 			assert( not empty( ) );
-			return *m_first++;
+			value_type result = *m_first;
+			++m_first;
+			return result;
 		}
 
 		[[nodiscard]] constexpr value_type pop_back( ) {
 			assert( not empty( ) );
-			return *( --m_last );
+			value_type result = *( m_last - 1 );
+			--m_last;
+			return result;
 		}
 
 	private:
-- 
2.43.0


From aa7acbc64fbaa1a12b4c1c6e8eca8a92591eaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 143/267] fix: span_writer::subspan compiles

It used designated initializers on a class that is not an aggregate.
---
 include/daw/daw_span_writer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..2fd5fa4 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,10 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = span_writer( );
+			result.m_first = m_first + static_cast<std::ptrdiff_t>( n );
+			result.m_size = m_size - n;
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From 98c63828f3d508fe2c9063c9f329e7f57a4d84d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 144/267] fix: crend of a span of constant elements is its end

It returned crbegin( ).
---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..0a40c94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From 9da65455d232e648c250a92263e1f485446e5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 145/267] fix: span::pop_front( n ) removes no more than there
 is

The returned span is limited to the size, but n elements were removed
from a span with less, which left it with a size that had wrapped around.
---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 0a40c94..db20d94 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -175,7 +175,7 @@ namespace daw {
 
 		constexpr span<T const> pop_front( size_t n ) {
 			auto result = subspan( 0, n );
-			remove_prefix( n );
+			remove_prefix( result.size( ) );
 			return result;
 		}
 
@@ -436,7 +436,7 @@ namespace daw {
 
 		constexpr span<T> pop_front( size_t n ) noexcept {
 			auto result = subspan( 0, n );
-			remove_prefix( n );
+			remove_prefix( result.size( ) );
 			return result;
 		}
 
-- 
2.43.0


From b4ad555bbc0568877b66aed10666befacf9875e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 146/267] fix: subspan of a constant span of mutable elements
 compiles

It passed a pointer to constant elements, and it refused the empty part
at the end that the non-const overload allows.
---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index db20d94..ae5aa7a 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -477,10 +477,10 @@ namespace daw {
 		                        size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
-			return { data( ) + pos, count };
+			return { m_first + pos, count };
 		}
 	};
 
-- 
2.43.0


From 0cca70f7e1ac586ccb247603d0cb5eb9fe5e102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 147/267] fix: iter_view::subspan gives the part that was asked
 for

It ended count elements after the start of the view instead of after the
offset, and an offset past the end moved the result out of the view.
---
 include/daw/daw_iter_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c04105a..10679e3 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -107,9 +107,10 @@ namespace daw {
 
 		constexpr iter_view
 		subspan( size_type offset, size_type count = max_value<size_type> ) const {
-			auto const sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return iter_view( std::next( begin( ), offset ),
-			                  std::next( begin( ), sz ) );
+			offset = std::min( size( ), offset );
+			count = std::min( count, size( ) - offset );
+			return iter_view(
+			  std::next( begin( ), static_cast<difference_type>( offset ) ), count );
 		}
 
 		constexpr size_type size( ) const {
-- 
2.43.0


From 7a54684cd57b3cb465733e78d4a2fd528dfb307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 148/267] fix: iter_view pops an element only once it is copied

The view had already been shortened when the element was copied, so an
element whose copy threw was lost.
---
 include/daw/daw_iter_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index 10679e3..dabdbd2 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -220,10 +220,10 @@ namespace daw {
 
 		[[nodiscard]] constexpr value_type pop_front( ) {
 			assert( not empty( ) );
-			auto ret_it = m_first;
+			value_type result = *m_first;
 			std::advance( m_first, 1 );
 			--m_size;
-			return *ret_it;
+			return result;
 		}
 
 	private:
-- 
2.43.0


From 32bc250a70330d86534b38ce629aa9e07ba368bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 149/267] fix: iter_view pop_front_until/while can discard when
 nothing was found

They then removed an element from an empty view, which asserts.
---
 include/daw/daw_iter_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index dabdbd2..9ef4d5d 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -339,7 +339,7 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			remove_prefix( 1 );
 			return result;
 		}
 
@@ -355,7 +355,7 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			remove_prefix( 1 );
 			return result;
 		}
 
-- 
2.43.0


From 9c7f8b521fea17718c7413e23f1f041e9a9be2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 150/267] fix: iter_view::remove_prefix without clipping can
 remove every element

It asserted that one is left.
---
 include/daw/daw_iter_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index 9ef4d5d..cb2cda1 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -208,7 +208,7 @@ namespace daw {
 		}
 
 		constexpr void remove_prefix( size_type count, dont_clip_to_bounds_t ) {
-			assert( count < size( ) );
+			assert( count <= size( ) );
 			std::advance( m_first, static_cast<difference_type>( count ) );
 			m_size -= count;
 		}
-- 
2.43.0


From 5e72a2a8164765327b11701ec2e165ddf643de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:30 +0000
Subject: [PATCH 151/267] fix: a span of constant elements can pop into a
 variable

The variable had to be const, so it could not be assigned to.
---
 include/daw/daw_span.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index ae5aa7a..7a64fe6 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -193,7 +193,8 @@ namespace daw {
 		}
 
 		constexpr bool
-		pop( T &value ) noexcept( std::is_nothrow_copy_assignable_v<T> ) {
+		pop( value_type &value ) noexcept(
+		  std::is_nothrow_copy_assignable_v<value_type> ) {
 			if( empty( ) ) {
 				return false;
 			}
-- 
2.43.0


From d5da478ad42ea39edcec51d53ba12ab0f33623bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:52 +0000
Subject: [PATCH 152/267] fix: a constant iter_view does not refer to elements
 that are gone

When the iterator makes its elements up and returns them by value,
front() and operator[] of a constant view returned a reference to a
destroyed temporary.
---
 include/daw/daw_iter_view.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index cb2cda1..adb1f32 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -42,12 +42,14 @@ namespace daw {
 		using const_iterator = iterator;
 		using value_type = iter_value_t<iterator>;
 		using reference = iter_reference_t<iterator>;
-		using const_reference =
+		using const_reference = conditional_t<
+		  std::is_reference_v<reference>,
 		  conditional_t<std::is_rvalue_reference_v<reference>,
 		                std::add_rvalue_reference_t<
 		                  std::add_const_t<std::remove_reference_t<reference>>>,
 		                std::add_lvalue_reference_t<
-		                  std::add_const_t<std::remove_reference_t<reference>>>>;
+		                  std::add_const_t<std::remove_reference_t<reference>>>>,
+		  reference>;
 		using size_type = std::size_t;
 		using difference_type = iter_difference_t<iterator>;
 		using reverse_iterator = std::reverse_iterator<iterator>;
-- 
2.43.0


From fec59e80002c11f13f36a6d09fb42c2a523cfd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 153/267] fix: bounded_vector has_room says whether there is
 room

It was true when the elements do not fit.
---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..f7f28bb 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count <= N - size( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From b79a3d623a2ae96cf64428b19a201229b920d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 154/267] fix: bounded_vector pop_front removes from the front

It refused every count but zero, and would have added elements at the
back.
---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index f7f28bb..5bd127b 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From 4c1fab8c1e8c41890088639702e99fbae72e2591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 155/267] fix: bounded_vector resize allows for elements popped
 from the front

It counted the new size from the start of the storage, so the view lost
or gained elements when the first one is not there.
---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 5bd127b..f2b8ed3 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -289,14 +289,14 @@ namespace daw {
 			  count <= capacity( ), "Attempt to resize past capacity of fix_stack" );
 
 			if( count > size( ) ) {
-				if( can_move_front( count ) ) {
+				if( can_move_front( count - size( ) ) ) {
 					do_move_to_front( );
 				}
-				for( size_type n = size( ); n < count; ++n ) {
+				for( size_type n = m_index; n < m_first + count; ++n ) {
 					m_stack[n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From 4c30acde75a4b4ed1b7d9e114b978caddfe34549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 156/267] fix: bounded_vector push_back( ) returns the position
 of the new element

It returned its place in the storage, which is another one once elements
have been popped from the front.
---
 include/daw/daw_bounded_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index f2b8ed3..ffff67c 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -221,7 +221,8 @@ namespace daw {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			return m_index++;
+			m_index++;
+			return size( ) - 1;
 		}
 
 		constexpr void push_back( const_pointer ptr, size_type sz ) noexcept {
-- 
2.43.0


From b4cc86dba89ab208fdf728da14ba0c9597b8c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 157/267] fix: bounded_vector erase returns the position after
 what was erased

It returned a later one, which could lie past the end, and erasing every
element was refused.
---
 include/daw/daw_bounded_vector.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index ffff67c..fc136d1 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -309,10 +309,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -326,14 +323,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From a26266a3326ab3aa6f261774677fc1b787c370f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 158/267] fix: bounded_vector swap exchanges all elements

The elements that only the longer one has stayed where they were, and the
wrong ones were exchanged if any had been popped from the front.
---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fc136d1..1972955 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -337,11 +337,11 @@ namespace daw {
 		}
 
 		constexpr void swap( bounded_vector_t &rhs ) {
+			for( std::size_t n = 0; n < ( daw::max )( m_index, rhs.m_index ); ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
+			}
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
-			}
 		}
 	};
 
-- 
2.43.0


From 683c5741ffba9da0912b0d16a138945619ed3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:08 +0000
Subject: [PATCH 159/267] fix: an element of a bounded_vector may throw while
 it is stored

Everything that stores elements was unconditionally noexcept, so the
program ended, and elements that were never stored would have counted.
---
 include/daw/daw_bounded_vector.h | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 1972955..20e213e 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -48,7 +48,7 @@ namespace daw {
 	public:
 		bounded_vector_t( ) = default;
 
-		constexpr bounded_vector_t( const_pointer ptr, size_type count ) noexcept
+		constexpr bounded_vector_t( const_pointer ptr, size_type count )
 		  : m_index{ ( daw::min )( count, N ) } {
 
 			daw::algorithm::copy_n( ptr, m_stack.begin( ), ( daw::min )( count, N ) );
@@ -184,7 +184,7 @@ namespace daw {
 		}
 
 	private:
-		constexpr void do_move_to_front( ) noexcept {
+		constexpr void do_move_to_front( ) {
 			for( std::size_t n = m_first; n < m_index; ++n ) {
 				m_stack[n - m_first] = m_stack[n];
 			}
@@ -197,7 +197,7 @@ namespace daw {
 		}
 
 	public:
-		constexpr void push_back( const_reference value ) noexcept {
+		constexpr void push_back( const_reference value ) {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
@@ -205,7 +205,7 @@ namespace daw {
 			++m_index;
 		}
 
-		constexpr void push_back( value_type &&value ) noexcept {
+		constexpr void push_back( value_type &&value ) {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
@@ -217,7 +217,7 @@ namespace daw {
 		 * This gets around things like std::pair not having constexpr operator=
 		 * @return position of pushed value
 		 */
-		constexpr std::size_t push_back( ) noexcept {
+		constexpr std::size_t push_back( ) {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
@@ -225,19 +225,18 @@ namespace daw {
 			return size( ) - 1;
 		}
 
-		constexpr void push_back( const_pointer ptr, size_type sz ) noexcept {
+		constexpr void push_back( const_pointer ptr, size_type sz ) {
 			if( can_move_front( sz ) ) {
 				do_move_to_front( );
 			}
-			auto const start = m_index;
-			m_index += sz;
-			for( std::size_t n = start; n < m_index; ++n ) {
-				m_stack[n] = *ptr;
+			for( std::size_t n = 0; n < sz; ++n ) {
+				m_stack[m_index + n] = *ptr;
 				++ptr;
 			}
+			m_index += sz;
 		}
 
-		constexpr void assign( size_type count, const_reference value ) noexcept {
+		constexpr void assign( size_type count, const_reference value ) {
 			clear( );
 			for( std::size_t n = 0; n < count; ++n ) {
 				push_back( value );
@@ -245,20 +244,19 @@ namespace daw {
 		}
 
 		template<typename Ptr>
-		constexpr void push_back( Ptr const *ptr, size_type sz ) noexcept {
+		constexpr void push_back( Ptr const *ptr, size_type sz ) {
 			if( can_move_front( sz ) ) {
 				do_move_to_front( );
 			}
-			auto const start = m_index;
-			m_index += sz;
-			for( std::size_t n = start; n < m_index; ++n ) {
-				m_stack[n] = static_cast<value_type>( *ptr );
+			for( std::size_t n = 0; n < sz; ++n ) {
+				m_stack[m_index + n] = static_cast<value_type>( *ptr );
 				++ptr;
 			}
+			m_index += sz;
 		}
 
 		template<typename... Args>
-		constexpr void emplace_back( Args &&...args ) noexcept {
+		constexpr void emplace_back( Args &&...args ) {
 			if( can_move_front( sizeof...( Args ) ) ) {
 				do_move_to_front( );
 			}
@@ -266,8 +264,10 @@ namespace daw {
 			++m_index;
 		}
 
-		[[nodiscard]] constexpr value_type pop_back( ) noexcept {
-			return m_stack[--m_index];
+		[[nodiscard]] constexpr value_type pop_back( ) {
+			value_type result = m_stack[m_index - 1];
+			--m_index;
+			return result;
 		}
 
 		constexpr void pop_front( size_type const count ) {
-- 
2.43.0


From b63aa11bda8bee5504476ce75ea543647ff5e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 160/267] fix: bounded_vector can append a copy of one of its
 elements

When the elements are moved to the front of the storage to make room,
the reference to the element to append referred to another one
afterwards. emplace_back with more arguments than the capacity did not
make room at all.
---
 include/daw/daw_bounded_vector.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 20e213e..c7941cb 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -199,9 +199,13 @@ namespace daw {
 	public:
 		constexpr void push_back( const_reference value ) {
 			if( can_move_front( 1 ) ) {
+				// value may be one of the elements
+				auto tmp = value;
 				do_move_to_front( );
+				m_stack[m_index] = std::move( tmp );
+			} else {
+				m_stack[m_index] = value;
 			}
-			m_stack[m_index] = value;
 			++m_index;
 		}
 
@@ -257,10 +261,11 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) {
-			if( can_move_front( sizeof...( Args ) ) ) {
+			auto value = daw::construct_a<value_type>( DAW_FWD( args )... );
+			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
+			m_stack[m_index] = std::move( value );
 			++m_index;
 		}
 
-- 
2.43.0


From 12d5936ddfc393d3ae664c2be00b811c9827dc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 161/267] fix: heap_array lets a failure to make its elements
 reach the caller

It terminated when out of memory, and when the constructor of an element
threw it went on with a null pointer as its storage. A copied array also
had no room for the sentinel that find_first_of writes after the last
element.
---
 include/daw/deprecated/daw_heap_array.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 245669f..75f5f2c 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -34,23 +34,16 @@ namespace daw {
 		value_type *m_end = nullptr;
 		size_t m_size = 0;
 
-		static value_type *create_value( size_t n ) noexcept {
-#if defined( DAW_USE_EXCEPTIONS )
-			try {
-#endif
-				return new value_type[n];
-#if defined( DAW_USE_EXCEPTIONS )
-			} catch( std::bad_alloc const & ) { std::terminate( ); } catch( ... ) {
-				return nullptr;
-			}
-#endif
+		// One more than needed, find_first_of puts a sentinel there
+		static value_type *create_value( size_t n ) {
+			return new value_type[n + 1];
 		}
 
 	public:
 		heap_array( ) = default;
 
 		heap_array( size_t Size )
-		  : m_begin( create_value( Size + 1 ) )
+		  : m_begin( create_value( Size ) )
 		  , m_end( m_begin + Size )
 		  , m_size( Size ) {}
 
-- 
2.43.0


From c07605b160ced061b2674fa5c2e09339243154f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 162/267] fix: moving a heap_array moves its end and frees what
 the target had

A moved-to array had no end, so iterating over it went wrong, and the
elements the target of a move assignment held were leaked.
---
 include/daw/deprecated/daw_heap_array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 75f5f2c..df304a0 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -55,13 +55,12 @@ namespace daw {
 
 		constexpr heap_array( heap_array &&other ) noexcept
 		  : m_begin( daw::exchange( other.m_begin, nullptr ) )
-		  , m_end( daw::exchange( other.m_begin, nullptr ) )
+		  , m_end( daw::exchange( other.m_end, nullptr ) )
 		  , m_size( daw::exchange( other.m_size, 0ULL ) ) {}
 
 		constexpr heap_array &operator=( heap_array &&rhs ) noexcept {
-			m_begin = daw::exchange( rhs.m_begin, nullptr );
-			m_end = daw::exchange( rhs.m_end, nullptr );
-			m_size = daw::exchange( rhs.m_size, 0ULL );
+			auto tmp = heap_array( std::move( rhs ) );
+			swap( tmp );
 			return *this;
 		}
 
-- 
2.43.0


From fa9457393fcf348e5cf438687261aaed64c6f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 163/267] fix: a heap_array whose elements fail to be copied
 leaks nothing

The storage was not freed when the copy of an element threw.
---
 include/daw/deprecated/daw_heap_array.h | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index df304a0..8572583 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -65,21 +65,14 @@ namespace daw {
 		}
 
 		heap_array( heap_array const &other )
-		  : m_begin( create_value( other.m_size ) )
-		  , m_end( m_begin + other.m_size )
-		  , m_size( other.m_size ) {
+		  : heap_array( other.m_size ) {
 
 			std::copy_n( other.m_begin, m_size, m_begin );
 		}
 
 		heap_array &operator=( heap_array const &rhs ) {
-			T *tmp = create_value( rhs.m_size );
-			T *tmp_end = std::copy_n( rhs.m_begin, rhs.m_size, tmp );
-			std::size_t tmp_sz = rhs.m_size;
-			clear( );
-			m_begin = tmp;
-			m_end = tmp_end;
-			m_size = tmp_sz;
+			auto tmp = heap_array( rhs );
+			swap( tmp );
 			return *this;
 		}
 
@@ -91,9 +84,7 @@ namespace daw {
 		}
 
 		heap_array( T *arry, size_t Size )
-		  : m_begin( create_value( Size ) )
-		  , m_end( m_begin + Size )
-		  , m_size( Size ) {
+		  : heap_array( Size ) {
 
 			std::copy_n( arry, Size, m_begin );
 		}
-- 
2.43.0


From b1b1b8fcd816c77903fa3e201619b6842cd0eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 164/267] fix: a heap_array that has elements converts to true

The conversion to bool was the wrong way round.
---
 include/daw/deprecated/daw_heap_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_heap_array.h b/include/daw/deprecated/daw_heap_array.h
index 8572583..df8306b 100644
--- a/include/daw/deprecated/daw_heap_array.h
+++ b/include/daw/deprecated/daw_heap_array.h
@@ -107,7 +107,7 @@ namespace daw {
 		}
 
 		explicit constexpr operator bool( ) const noexcept {
-			return nullptr == m_begin;
+			return nullptr != m_begin;
 		}
 
 		constexpr size_t size( ) const noexcept {
-- 
2.43.0


From d17bffb88618b19e408a8d08af36bb2f19cefb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 165/267] fix: bounded_hash_map find of a key that is not there
 returns the end

Unless the map was full it returned the free slot where the key would be
inserted.
---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index c7adc75..d3eece3 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -516,7 +516,7 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
@@ -525,7 +525,7 @@ namespace daw {
 
 		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
-- 
2.43.0


From 8205a722ab34d238b60a28501023dcc916d62ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 166/267] fix: bounded_hash_map erase keeps the other keys
 findable

A search stops at a free slot, so keys stored behind the erased one
because their slots were taken were lost.
---
 include/daw/deprecated/daw_bounded_hash_map.h | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index d3eece3..45a8a03 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -534,9 +534,27 @@ namespace daw {
 
 		constexpr void erase( Key const &key ) {
 			auto idx = find_index( key );
-			if( idx ) {
-				m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			if( not idx or not m_data[*idx] ) {
+				return;
+			}
+			// Move items that could not be stored closer to their place into
+			// the gap, otherwise a search for them would stop at it
+			auto gap = *idx;
+			auto const next = []( size_type n ) {
+				return ( n + 1 ) % capacity( );
+			};
+			auto const distance = []( size_type from, size_type to ) {
+				return ( to + capacity( ) - from ) % capacity( );
+			};
+			for( auto n = next( gap ); n != *idx and m_data[n]; n = next( n ) ) {
+				auto const home =
+				  scale_hash( Hash{ }( m_data[n].kv.key ), capacity( ) );
+				if( distance( home, n ) >= distance( gap, n ) ) {
+					m_data[gap] = std::move( m_data[n] );
+					gap = n;
+				}
 			}
+			m_data[gap] = bounded_hash_map_item_t<Key, Value>( );
 		}
 	};
 	template<typename Key, typename Value, typename Hash = std::hash<Key>,
-- 
2.43.0


From 7f3de3c7936488930475c59bdfd9e67937432a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 167/267] fix: bounded_hash_map does not show an entry that
 could not be made

operator[] marked the slot as used before the key and value were stored.
---
 include/daw/deprecated/daw_bounded_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 45a8a03..16cde31 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -402,9 +402,9 @@ namespace daw {
 		constexpr mapped_type &operator[]( Key const &key ) {
 			auto &item = m_data[*find_index( key )];
 			if( not item ) {
-				item.has_value = true;
 				item.kv.key = key;
 				item.kv.value = Value{ };
+				item.has_value = true;
 			}
 			return item.kv.value;
 		}
@@ -412,9 +412,9 @@ namespace daw {
 		constexpr mapped_type &operator[]( Key &&key ) {
 			auto &item = m_data[*find_index( key )];
 			if( not item ) {
-				item.has_value = true;
-				item.kv.key = std::move( key );
 				item.kv.value = Value{ };
+				item.kv.key = std::move( key );
+				item.has_value = true;
 			}
 			return item.kv.value;
 		}
-- 
2.43.0


From bc825c3968d761e34ed940e67b4d4e721df50669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:49 +0000
Subject: [PATCH 168/267] fix: bounded_hash_set iterators stay within the set

Incrementing an iterator to the last key read the slot after the last
one, and could move further.
---
 include/daw/deprecated/daw_bounded_hash_set.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5427c4b..ec98da6 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -76,7 +76,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position < m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -90,7 +90,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position > m_first ) {
+			while( m_position > m_first and !m_position->has_value ) {
 				--m_position;
 			}
 			return *this;
@@ -167,7 +167,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position <= m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -181,7 +181,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position >= m_first ) {
+			while( m_position > m_first and !m_position->has_value ) {
 				--m_position;
 			}
 			return *this;
-- 
2.43.0


From a48978ba72cf9ff9fc06e94739eac576588a4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:17 +0000
Subject: [PATCH 169/267] fix: bounded_hash_set find of a key that is not there
 returns the end

Unless the set was full it returned the free slot where the key would be
inserted. For a constant set it did not compile.
---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index ec98da6..92f5ab3 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -450,15 +450,15 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) noexcept {
 			auto idx = find_index( hasher{ }( key ), key );
-			if( !idx ) {
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
 		constexpr const_iterator find( Key const &key ) const noexcept {
-			auto idx = find_index( key );
-			if( !idx ) {
+			auto idx = find_index( hasher{ }( key ), key );
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
-- 
2.43.0


From 0ee39e255cfe2dd10709ea1df7198ee4ff545d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:17 +0000
Subject: [PATCH 170/267] fix: bounded_hash_set erase keeps the other keys
 findable

A search stops at a free slot, so keys stored behind the erased one
because their slots were taken were lost. It also claimed to have erased
a key that was not there.
---
 include/daw/deprecated/daw_bounded_hash_set.h | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 92f5ab3..2541a96 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -366,11 +366,28 @@ namespace daw {
 		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
-			if( !index ) {
+			if( !index or !m_data[*index].has_value ) {
 				return { };
 			}
-			// m_data[*index].key = Key{};
-			m_data[*index].has_value = false;
+			// Move keys that could not be stored closer to their place into the
+			// gap, otherwise a search for them would stop at it
+			auto gap = *index;
+			auto const next = []( size_type n ) {
+				return ( n + 1 ) % Capacity;
+			};
+			auto const distance = []( size_type from, size_type to ) {
+				return ( to + Capacity - from ) % Capacity;
+			};
+			for( auto n = next( gap ); n != *index and m_data[n].has_value;
+			     n = next( n ) ) {
+				auto const home = scale_hash( hasher{ }( m_data[n].key ), Capacity );
+				if( distance( home, n ) >= distance( gap, n ) ) {
+					m_data[gap].key = std::move( m_data[n].key );
+					gap = n;
+				}
+			}
+			// m_data[gap].key = Key{};
+			m_data[gap].has_value = false;
 			return *index;
 		}
 
-- 
2.43.0


From 2d5a58630b577baee4e964e46e5d5b07a25542aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:17 +0000
Subject: [PATCH 171/267] fix: bounded_hash_set size compiles

The function it accumulates with took one argument.
---
 include/daw/deprecated/daw_bounded_hash_set.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 2541a96..e5a8151 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -407,8 +407,9 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
 			return daw::algorithm::accumulate(
-			  std::begin( m_data ), std::end( m_data ), 0ULL, []( auto const &opt ) {
-				  return opt.has_value ? 1ULL : 0ULL;
+			  std::begin( m_data ), std::end( m_data ), size_type{ 0 },
+			  []( size_type count, auto const &opt ) {
+				  return opt.has_value ? count + 1 : count;
 			  } );
 		}
 
-- 
2.43.0


From 50836eb07b8fa6e9cf59f26c863a135f937530e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:17 +0000
Subject: [PATCH 172/267] fix: a bounded_hash_set lets what a key throws reach
 the caller

Inserting and searching were unconditionally noexcept, so a key whose
copy, hash or comparison throws ended the program.
---
 include/daw/deprecated/daw_bounded_hash_set.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index e5a8151..312a890 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -307,7 +307,7 @@ namespace daw {
 		}
 
 		constexpr std::optional<size_type>
-		find_index( size_type hash, Key const &key ) const noexcept {
+		find_index( size_type hash, Key const &key ) const {
 			size_type const scaled_hash = scale_hash( hash, m_data.size( ) );
 
 			for( size_type n = scaled_hash; n < m_data.size( ); ++n ) {
@@ -333,7 +333,7 @@ namespace daw {
 		constexpr bounded_hash_set_t( ) noexcept(
 		  std::is_nothrow_default_constructible_v<Key> ) = default;
 
-		constexpr iterator insert( Key const &key ) noexcept {
+		constexpr iterator insert( Key const &key ) {
 			auto const index = find_index( hasher{ }( key ), key );
 			if( !index ) {
 				// Full
@@ -348,7 +348,7 @@ namespace daw {
 			         m_data.data( ) + *index };
 		}
 
-		constexpr iterator insert( Key &&key ) noexcept {
+		constexpr iterator insert( Key &&key ) {
 			auto const index = find_index( hasher{ }( key ), key );
 			if( !index ) {
 				// Full
@@ -363,7 +363,7 @@ namespace daw {
 			         m_data.data( ) + *index };
 		}
 
-		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
+		constexpr std::optional<size_type> erase( Key const &key ) {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
 			if( !index or !m_data[*index].has_value ) {
@@ -391,13 +391,13 @@ namespace daw {
 			return *index;
 		}
 
-		constexpr bool exists( Key const &key ) const noexcept {
+		constexpr bool exists( Key const &key ) const {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
 			return static_cast<bool>( index ) and m_data[*index].has_value;
 		}
 
-		constexpr bool count( Key const &key ) const noexcept {
+		constexpr bool count( Key const &key ) const {
 			return exists( key ) ? 1 : 0;
 		}
 
@@ -466,7 +466,7 @@ namespace daw {
 			         m_data.data( ) + m_data.size( ) };
 		}
 
-		constexpr iterator find( Key const &key ) noexcept {
+		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( hasher{ }( key ), key );
 			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
@@ -474,7 +474,7 @@ namespace daw {
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
-		constexpr const_iterator find( Key const &key ) const noexcept {
+		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( hasher{ }( key ), key );
 			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
@@ -484,7 +484,7 @@ namespace daw {
 	};
 
 	template<typename Key, typename Hash = std::hash<Key>, size_t N>
-	constexpr auto make_bounded_hash_set( Key const ( &items )[N] ) noexcept {
+	constexpr auto make_bounded_hash_set( Key const ( &items )[N] ) {
 		auto result = bounded_hash_set_t<Key, N, Hash>{ };
 		for( auto item : items ) {
 			result.insert( item );
-- 
2.43.0


From 05f5e1d989295ae2ee9f8cd0ac66fdce80bdb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:17 +0000
Subject: [PATCH 173/267] fix: ordered_map can be iterated in reverse

The reverse iterators were returned as iterators, which did not compile.
---
 include/daw/deprecated/daw_ordered_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 41071a1..5d360fd 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -126,17 +126,17 @@ namespace daw {
 			return cbeginer( m_values );
 		}
 
-		constexpr iterator rbegin( ) noexcept {
+		constexpr reverse_iterator rbegin( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator rbegin( ) const noexcept {
+		constexpr const_reverse_iterator rbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator crbegin( ) const noexcept {
+		constexpr const_reverse_iterator crbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crbeginer( m_values );
 		}
@@ -156,17 +156,17 @@ namespace daw {
 			return cender( m_values );
 		}
 
-		constexpr iterator rend( ) noexcept {
+		constexpr reverse_iterator rend( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator rend( ) const noexcept {
+		constexpr const_reverse_iterator rend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator crend( ) const noexcept {
+		constexpr const_reverse_iterator crend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crender( m_values );
 		}
-- 
2.43.0


From b018c0f0a2108041cbda0df6344088f0357c6dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:17 +0000
Subject: [PATCH 174/267] fix: ordered_map can be made from a range or a list

It compared keys with whole elements, which did not compile.
---
 include/daw/deprecated/daw_ordered_map.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 5d360fd..e2e918f 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -239,8 +239,8 @@ namespace daw {
 		  , m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
-					m_values.insert( pos, *first );
+				if( auto pos = find( first->first ); pos == end( ) ) {
+					m_values.emplace( pos, first->first, first->second );
 				}
 				++first;
 			}
@@ -253,8 +253,8 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
-					m_values.insert( pos, *first );
+				if( auto pos = find( first->first ); pos == end( ) ) {
+					m_values.emplace( pos, first->first, first->second );
 				}
 				++first;
 			}
@@ -267,8 +267,8 @@ namespace daw {
 		  , m_compare( comp ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
-					m_values.insert( pos, value );
+				if( auto pos = find( value.first ); pos == end( ) ) {
+					m_values.emplace( pos, value.first, value.second );
 				}
 			}
 		}
@@ -278,8 +278,8 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
-					m_values.insert( pos, value );
+				if( auto pos = find( value.first ); pos == end( ) ) {
+					m_values.emplace( pos, value.first, value.second );
 				}
 			}
 		}
-- 
2.43.0


From e1a8e1abee1d48a8203b21833a1896673172a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:41 +0000
Subject: [PATCH 175/267] fix: bounded_hash_map empty compiles

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 16cde31..aa6bafc 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -468,7 +468,7 @@ namespace daw {
 			return daw::algorithm::find_if( std::cbegin( m_data ),
 			                                std::cend( m_data ),
 			                                []( auto const &value ) {
-				                                return value;
+				                                return value.has_value;
 			                                } ) == std::cend( m_data );
 		}
 
-- 
2.43.0


From 395e9d5494959366bcddfc771e373b2213e89c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:47 +0000
Subject: [PATCH 176/267] fix: bounded_hash_map try_get compiles

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index aa6bafc..774c3b5 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -437,7 +437,7 @@ namespace daw {
 			if( not item ) {
 				return { };
 			}
-			return item.kv.value;
+			return daw::optional<mapped_type const &>( item.kv.value );
 		}
 
 		constexpr size_type count( Key const &key ) const {
-- 
2.43.0


From 0111206be0172754a9cf4900bb09fe418719d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 177/267] fix: arg_iterator_t::at gives the first argument too

---
 include/daw/iterator/daw_argument_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..b9c8b3a 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -101,7 +101,7 @@ namespace daw {
 			auto const pos = m_pos + n;
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  0 < pos and pos < m_argc, "Attempt to access invalid argument" );
+			  0 <= pos and pos < m_argc, "Attempt to access invalid argument" );
 
 			return std::string_view( m_argv[pos] );
 		}
-- 
2.43.0


From aa09789cf20042920f29e7fe955d1368e31ec923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 178/267] fix: arg_iterator_t is ordered by its position

---
 include/daw/iterator/daw_argument_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index b9c8b3a..7efb523 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -126,28 +126,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From b0a4dd207c2db88fa4947c80fed8d08d5976ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 179/267] fix: the distance of an arg_iterator_t to its end is
 what is left

---
 include/daw/iterator/daw_argument_iterator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 7efb523..dd80c01 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -84,7 +84,10 @@ namespace daw {
 
 		constexpr difference_type
 		operator-( arg_iterator_t const &rhs ) const noexcept {
-			return m_pos - rhs.m_pos;
+			// an end that was made without arguments is the end of any
+			auto const lhs_pos = m_argv == nullptr ? rhs.m_argc : m_pos;
+			auto const rhs_pos = rhs.m_argv == nullptr ? m_argc : rhs.m_pos;
+			return lhs_pos - rhs_pos;
 		}
 
 		constexpr difference_type
-- 
2.43.0


From 1728f2be67c93ac71895b85df87c9892952014fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 180/267] fix: checked_iterator_proxy_t makes the checks that
 were asked for

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..451523f 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -40,9 +40,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
-- 
2.43.0


From cd3581d01682ceecbcdbd0342e03fdc7f1338ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 181/267] fix: postfix ++ and -- of checked_iterator_proxy_t
 move it

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 451523f..a1d0527 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -76,9 +76,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			++*this;
 			return result;
 		}
 
@@ -92,9 +92,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			--*this;
 			return result;
 		}
 
-- 
2.43.0


From fed616695dc66c859314ffdd39c7f4d0999647cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 182/267] fix: two types of checked_iterator_proxy_t can be
 used in one program

---
 .../daw/iterator/daw_checked_iterator_proxy.h | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index a1d0527..2f45cd5 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -134,38 +134,31 @@ namespace daw {
 			return current.operator->( );
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
-			return lhs.current == rhs.current;
+		template<typename, typename>
+		friend class checked_iterator_proxy_t;
+
+		template<typename IteratorFirst_rhs, typename IteratorLast_rhs>
+		bool operator==(
+		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const &rhs )
+		  const {
+			return current == rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
-			return lhs.current == rhs;
+		template<typename Iterator_rhs>
+		bool operator==( Iterator_rhs const &rhs ) const {
+			return current == rhs;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
-			return lhs.current != rhs.current;
+		template<typename IteratorFirst_rhs, typename IteratorLast_rhs>
+		bool operator!=(
+		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const &rhs )
+		  const {
+			return current != rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
-			return lhs.current != rhs;
+		template<typename Iterator_rhs>
+		bool operator!=( Iterator_rhs const &rhs ) const {
+			return current != rhs;
 		}
 	}; // checked_iterator_proxy_t
 
-- 
2.43.0


From ba744b549061b719ad5f646ec9cde54c8d32004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 183/267] fix: checked_iterator_proxy_t::operator-> compiles

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 2f45cd5..43456b6 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -116,22 +116,22 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
 		template<typename, typename>
-- 
2.43.0


From 42c7b8c05f77f1443d6c20b0a86fd35cce646dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:42 +0000
Subject: [PATCH 184/267] fix: chunk_iterator -= and - go back

---
 include/daw/iterator/daw_chunk_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..9b4143d 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -88,7 +88,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
-- 
2.43.0


From d2c7a3f2b91af4dedab5164891ee6a7b6607139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 185/267] fix: the distance of chunk_iterators is counted in
 chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index 9b4143d..850343d 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -118,7 +118,12 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			auto const chunk_size =
+			  m_chunk_size != 0 ? m_chunk_size : rhs.m_chunk_size;
+			if( chunk_size == 0 ) {
+				return m_iterator - rhs.m_iterator;
+			}
+			return ( m_iterator - rhs.m_iterator ) / chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From 96911cbfd765f29cc42b570c49175d76db9cb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 186/267] fix: chunk_iterator::operator-> compiles

---
 include/daw/iterator/daw_chunk_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index 850343d..72aa343 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -45,11 +45,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator->( ) {
-			return m_iterator->operator->( );
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator->( ) const {
-			return m_iterator->operator->( );
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator[]( size_type idx ) {
-- 
2.43.0


From 2d6868a5aedb294f496f39f4d3e9bbd03103f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 187/267] fix: going back whole rounds keeps a
 circular_iterator in the container

---
 include/daw/iterator/daw_circular_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..a3c0dfb 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -64,7 +64,7 @@ namespace daw {
 			if( n < 0 ) {
 				n *= -1;
 				n %= sz;
-				return sz - n;
+				return n == 0 ? 0 : sz - n;
 			} else if( n >= sz ) {
 				return n % sz;
 			}
-- 
2.43.0


From e542a0d054691d881769b3879dbd50dac79baa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 188/267] fix: circular_iterator::operator-> gives a pointer to
 the element

---
 include/daw/iterator/daw_circular_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index a3c0dfb..8d15597 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -139,7 +139,7 @@ namespace daw {
 		}
 
 		constexpr decltype( auto ) operator->( ) noexcept {
-			return *get_iterator( m_position );
+			return std::addressof( *get_iterator( m_position ) );
 		}
 
 		constexpr circular_iterator &operator++( ) noexcept {
-- 
2.43.0


From 34b5fed1d7e85349f06bb1fd29bfbe388e7cefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 189/267] fix: find_one_iterator starts at the first match

---
 include/daw/iterator/daw_find_one_iterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..609c42d 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
-- 
2.43.0


From a9aac1d9db87d8dd841691a71066c28f99dce16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 190/267] fix: find_one_iterator with several filters and ->
 compiles

---
 include/daw/iterator/daw_find_one_iterator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 609c42d..889076c 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -24,11 +24,11 @@ namespace daw {
 		T value;
 		std::size_t index;
 
-		find_one_element *operator->( ) const && {
+		constexpr find_one_element const *operator->( ) const && {
 			return this;
 		}
 
-		find_one_element *operator->( ) && {
+		constexpr find_one_element *operator->( ) && {
 			return this;
 		}
 	};
@@ -48,7 +48,7 @@ namespace daw {
 		    std::declval<typename std::iterator_traits<
 		      Iterator>::iterator_category>( ) ) )::type;
 		using reference = value_type;
-		using pointer = find_one_element<reference>;
+		using pointer = value_type;
 
 	private:
 		Iterator m_first = Iterator{ };
@@ -126,7 +126,7 @@ namespace daw {
 		}
 	};
 
-	template<typename Iterator, typename IteratorLast, typename Filter>
-	find_one_iterator( Iterator, IteratorLast, Filter )
-	  -> find_one_iterator<Iterator, IteratorLast, Filter>;
+	template<typename Iterator, typename IteratorLast, typename... Filters>
+	find_one_iterator( Iterator, IteratorLast, Filters... )
+	  -> find_one_iterator<Iterator, IteratorLast, Filters...>;
 } // namespace daw
-- 
2.43.0


From a84268209b0743498c48ad5bf06bdc94bdc04bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 191/267] fix: find_iterator can use a function

---
 include/daw/iterator/impl/daw_find_iterator_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index f310527..dd06e41 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -38,6 +38,9 @@ namespace daw::find_iterator_impl {
 
 	template<typename Filter>
 	struct FilterProxy<Filter, false> {
+		explicit constexpr FilterProxy( Filter filt )
+		  : m_filter( filt ) {}
+
 	protected:
 		Filter m_filter;
 
-- 
2.43.0


From 1a78e71b60f080037fe23e90b3d2067957486812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 192/267] fix: adding to an indexed_iterator can reach the end

---
 include/daw/iterator/daw_indexed_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..9c0048f 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
-- 
2.43.0


From 7972540f669fbf01513905316c88e651e726459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 193/267] fix: postfix ++ of integer_range_iterator compiles

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From 95930c97bf377711fb44cf1f87e3a3fb701b6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 194/267] fix: iota_iterator += and -= go by steps

---
 include/daw/iterator/daw_iota_iterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..e628bef 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -51,13 +51,15 @@ namespace daw {
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
 			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
+			  static_cast<value_type>( static_cast<difference_type>( m_value ) +
+			                         m_step * n );
 			return *this;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
 			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
+			  static_cast<value_type>( static_cast<difference_type>( m_value ) -
+			                         m_step * n );
 			return *this;
 		}
 
-- 
2.43.0


From 73c0335bca1a94e0865d305202be62b398ac350b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 195/267] fix: ++ and -- of pointer_iterator return what they
 should

---
 include/daw/iterator/daw_pointer_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..1d749cf 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,13 +67,13 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
-- 
2.43.0


From 0c97c1132cca56d6e4c07bdc4245502bed925a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 196/267] fix: a number can be subtracted from a
 pointer_iterator

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 1d749cf..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From 502ebe825aca44f9278e4b8560dedeea9f6ba57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 197/267] fix: repeat_n_char_iterator += goes forward

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..1e18cb8 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p;
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From 0cacc30259a870db367493536c59effd5b03fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 198/267] fix: assigning an InputIterator destroys the old
 iterator as what it is

---
 include/daw/iterator/InputIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index fb67376..e698fc0 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -138,8 +138,8 @@ namespace daw {
 				// copy first so that if it throws we are cool
 				auto tmp = rhs.fn_op_clone( )( rhs.m_iterator );
 				std::swap( m_iterator, tmp );
-				m_vtable = rhs.m_vtable;
 				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( tmp );
+				m_vtable = rhs.m_vtable;
 			}
 			return *this;
 		}
-- 
2.43.0


From b70eec4fd4d13dba3551b9a73c1d0d66155bdbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:43 +0000
Subject: [PATCH 199/267] fix: move assigning an InputIterator does not leak
 the old iterator

---
 include/daw/iterator/InputIterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index e698fc0..252bf4e 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -150,6 +150,8 @@ namespace daw {
 
 		InputIterator &operator=( InputIterator &&rhs ) noexcept {
 			if( this != &rhs ) {
+				input_impl::get<input_impl::OpDel, value_type>( m_vtable )(
+				  m_iterator );
 				m_iterator = daw::exchange( rhs.m_iterator, nullptr );
 				m_vtable = rhs.m_vtable;
 			}
-- 
2.43.0


From 3e377accca0c5d43a3060c09d1910923f283cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:57 +0000
Subject: [PATCH 200/267] fix: ranges of unsigned numbers are not empty and
 iota_iterator is ordered

---
 include/daw/iterator/daw_iota_iterator.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index e628bef..1eec719 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -125,11 +125,10 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
+			if( m_value < rhs.m_value ) {
 				return -1;
 			}
-			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
+			if( rhs.m_value < m_value ) {
 				return 1;
 			}
 			return 0;
@@ -137,12 +136,13 @@ namespace daw {
 
 		friend constexpr bool operator==( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) == 0;
+			// The end of a range may lie between two steps
+			return lhs.compare( rhs ) >= 0;
 		}
 
 		friend constexpr bool operator!=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) != 0;
+			return lhs.compare( rhs ) < 0;
 		}
 
 		friend constexpr bool operator>( iota_iterator const &lhs,
@@ -162,7 +162,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return lhs.compare( rhs ) <= 0;
 		}
 	}; // iota_iterator
 
-- 
2.43.0


From 6253f6a7a6a9259cf233b17e80b3a7be4269a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:25 +0000
Subject: [PATCH 201/267] fix: make_function_iterator can use a function that
 has a name

---
 include/daw/iterator/daw_function_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_function_iterator.h b/include/daw/iterator/daw_function_iterator.h
index 9523c32..c377934 100644
--- a/include/daw/iterator/daw_function_iterator.h
+++ b/include/daw/iterator/daw_function_iterator.h
@@ -63,6 +63,6 @@ namespace daw {
 	///
 	template<typename Function>
 	constexpr auto make_function_iterator( Function &&func ) {
-		return function_iterator<Function>( DAW_FWD( func ) );
+		return function_iterator<std::decay_t<Function>>( DAW_FWD( func ) );
 	}
 } // namespace daw
-- 
2.43.0


From 32617315856550180649e52912bfa07a371f4bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:56 +0000
Subject: [PATCH 202/267] fix: stepping a reverse_iterator lets its iterator
 throw

---
 include/daw/iterator/daw_reverse_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_reverse_iterator.h b/include/daw/iterator/daw_reverse_iterator.h
index cf46eff..83b8129 100644
--- a/include/daw/iterator/daw_reverse_iterator.h
+++ b/include/daw/iterator/daw_reverse_iterator.h
@@ -73,23 +73,23 @@ namespace daw {
 			return *( *this + n );
 		}
 
-		constexpr reverse_iterator &operator++( ) noexcept {
+		constexpr reverse_iterator &operator++( ) {
 			--m_base;
 			return *this;
 		}
 
-		constexpr reverse_iterator operator++( int ) noexcept {
+		constexpr reverse_iterator operator++( int ) {
 			reverse_iterator tmp{ *this };
 			--m_base;
 			return tmp;
 		}
 
-		constexpr reverse_iterator &operator--( ) noexcept {
+		constexpr reverse_iterator &operator--( ) {
 			++m_base;
 			return *this;
 		}
 
-		constexpr reverse_iterator operator--( int ) noexcept {
+		constexpr reverse_iterator operator--( int ) {
 			reverse_iterator tmp{ *this };
 			++m_base;
 			return tmp;
-- 
2.43.0


From 788b776ca714585aea5e0e20f68349fa9f64e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 203/267] fix: function_ref forwards its arguments

---
 include/daw/daw_function_ref.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_function_ref.h b/include/daw/daw_function_ref.h
index 7169c3f..b905b67 100644
--- a/include/daw/daw_function_ref.h
+++ b/include/daw/daw_function_ref.h
@@ -11,6 +11,7 @@
 #include <cassert>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 #ifdef DAW_CPP26_CONSTEXPR
 #undef DAW_CPP26_CONSTEXPR
@@ -56,11 +57,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR Result obj_thunk( data_t const &d,
 		                                             Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			return obj( params... );
+			return obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr Result fp_thunk( data_t const &d, Params... params ) {
-			return d.func_ptr( params... );
+			return d.func_ptr( std::forward<Params>( params )... );
 		}
 
 	public:
@@ -123,11 +124,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR void obj_thunk( data_t const &d,
 		                                           Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			(void)obj( params... );
+			(void)obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr void fp_thunk( data_t const &d, Params... params ) {
-			d.func_ptr( params... );
+			d.func_ptr( std::forward<Params>( params )... );
 		}
 
 		template<
@@ -162,7 +163,7 @@ namespace daw {
 		}
 
 		constexpr void operator( )( Params... params ) const {
-			m_thunk( m_data, params... );
+			m_thunk( m_data, std::forward<Params>( params )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From 82f608bf3a5a58eae43611c482c5ac71d93a8526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 204/267] fix: copying a function_view views the same callable

---
 include/daw/daw_function_view.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..d3442f5 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -17,6 +17,7 @@
 #include <cstdio>
 #include <cstring>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 namespace daw {
@@ -104,7 +105,10 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		template<
+		  typename Func,
+		  std::enable_if_t<not std::is_same_v<function_view, std::decay_t<Func>>,
+		                   std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
@@ -118,7 +122,10 @@ namespace daw {
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		template<
+		  typename Func,
+		  std::enable_if_t<not std::is_same_v<function_view, std::decay_t<Func>>,
+		                   std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
-- 
2.43.0


From d1327fdc1d300636f3dafa89e4426cca1b9efabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 205/267] fix: function_view takes reference parameters

---
 include/daw/daw_function_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index d3442f5..f0ab65d 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -42,19 +42,19 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> Result {
-					        return ( d.fp_storage )( std::move( args )... );
+					        return ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr },
 				         []( data_t const &, Args... args ) -> Result {
-					         return fn_t{ }( std::move( args )... );
+					         return fn_t{ }( std::forward<Args>( args )... );
 				         } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> Result {
 					         return ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -81,18 +81,18 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> void {
-					        ( d.fp_storage )( std::move( args )... );
+					        ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr }, []( data_t const &, Args... args ) -> void {
-					        fn_t{ }( std::move( args )... );
+					        fn_t{ }( std::forward<Args>( args )... );
 				        } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> void {
 					         ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -115,7 +115,7 @@ namespace daw {
 
 		constexpr Result operator( )( Args... args ) const {
 			return function_view_table.call_ptr( function_view_table.data,
-			                                     std::move( args )... );
+			                                     std::forward<Args>( args )... );
 		}
 	};
 	template<typename... Args>
@@ -132,7 +132,7 @@ namespace daw {
 
 		constexpr void operator( )( Args... args ) const {
 			function_view_table.call_ptr( function_view_table.data,
-			                              std::move( args )... );
+			                              std::forward<Args>( args )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From cf9a80b550bcac754f6543b63bb2398e1989b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 206/267] fix: function_table operator() passes allow_empty on

---
 include/daw/daw_function_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_function_table.h b/include/daw/daw_function_table.h
index ab42e89..35c3099 100644
--- a/include/daw/daw_function_table.h
+++ b/include/daw/daw_function_table.h
@@ -129,7 +129,7 @@ namespace daw {
 
 		template<bool allow_empty = false, typename... Args>
 		constexpr R operator( )( size_t idx, Args &&...args ) const {
-			return call( idx, DAW_FWD( args )... );
+			return call<allow_empty>( idx, DAW_FWD( args )... );
 		}
 
 		template<typename Value>
-- 
2.43.0


From 1c5aac741cf955e9beefc81bc8cf51ca8482bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 207/267] fix: function_table holds functions that can only be
 moved

---
 include/daw/daw_function_table.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_table.h b/include/daw/daw_function_table.h
index 35c3099..2b9701d 100644
--- a/include/daw/daw_function_table.h
+++ b/include/daw/daw_function_table.h
@@ -115,7 +115,7 @@ namespace daw {
 
 		constexpr function_table_t( ) = default;
 		constexpr function_table_t( Function f, Functions... fs )
-		  : fns{ f, fs... } {}
+		  : fns{ std::move( f ), std::move( fs )... } {}
 
 		template<bool allow_empty = false, typename... Args>
 		constexpr R call( size_t idx, Args &&...args ) const {
@@ -149,6 +149,7 @@ namespace daw {
 	template<typename R = void, typename Function, typename... Functions>
 	[[nodiscard]] constexpr function_table_t<R, Function, Functions...>
 	make_function_table( Function fn, Functions... fns ) {
-		return function_table_t<R, Function, Functions...>{ fn, fns... };
+		return function_table_t<R, Function, Functions...>{ std::move( fn ),
+		                                                   std::move( fns )... };
 	}
 } // namespace daw
-- 
2.43.0


From efb4b2a5c25a19cc5042a8fba660e798c70ec7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 208/267] fix: bind_args_at passes references on as references

---
 include/daw/daw_bind_args_at.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bind_args_at.h b/include/daw/daw_bind_args_at.h
index 90cbe69..4437f1e 100644
--- a/include/daw/daw_bind_args_at.h
+++ b/include/daw/daw_bind_args_at.h
@@ -31,8 +31,8 @@ namespace daw {
 		if constexpr( sizeof...( Args ) == 0 ) {
 			return std::tuple<>{ };
 		} else {
-			return std::tuple<std::decay_t<decltype( std::get<StartN + Is>( std::move(
-			  args ) ) )>...>( std::get<StartN + Is>( std::move( args ) )... );
+			return std::tuple<std::tuple_element_t<StartN + Is, std::tuple<Args...>>...>(
+			  std::get<StartN + Is>( std::move( args ) )... );
 		}
 	}
 
-- 
2.43.0


From a4967c8ecb13f7a6de0c4b090980e628bc6235ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 209/267] fix: a bind_front without arguments can be copied

---
 include/daw/daw_bind_front.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bind_front.h b/include/daw/daw_bind_front.h
index 979dba6..c77c8af 100644
--- a/include/daw/daw_bind_front.h
+++ b/include/daw/daw_bind_front.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include "daw_move.h"
+
 #include <tuple>
 #include <type_traits>
 
@@ -18,7 +20,10 @@ namespace daw {
 		std::tuple<Params...> m_params;
 
 	public:
-		template<typename F, typename... P>
+		template<
+		  typename F, typename... P,
+		  std::enable_if_t<not std::is_same_v<bind_front, std::decay_t<F>>,
+		                   std::nullptr_t> = nullptr>
 		explicit constexpr bind_front( F &&func, P &&...params )
 		  : m_func( DAW_FWD( func ) )
 		  , m_params( DAW_FWD( params )... ) {}
-- 
2.43.0


From b574001e8cb469f7263f09c65fe50e9016c2d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:23 +0000
Subject: [PATCH 210/267] fix: do_n is only noexcept when the calls it makes
 are

---
 include/daw/daw_do_n.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_do_n.h b/include/daw/daw_do_n.h
index 082d3df..bd151b9 100644
--- a/include/daw/daw_do_n.h
+++ b/include/daw/daw_do_n.h
@@ -49,7 +49,7 @@ namespace daw::algorithm {
 	template<typename Function, typename... Args>
 	DAW_ATTRIB_FLATTEN static inline constexpr void
 	do_n( std::size_t count, Function &&func, Args &&...args ) noexcept(
-	  std::is_nothrow_invocable_v<Function, Args...> ) {
+	  std::is_nothrow_invocable_v<Function &, Args &...> ) {
 		while( count-- > 0 ) {
 			func( args... );
 		}
-- 
2.43.0


From 633966ddf51cd9fc34b1b80181c0060f7af0ebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 211/267] fix: piecewise_factory sets any argument by index

---
 include/daw/daw_piecewise_factory.h | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_piecewise_factory.h b/include/daw/daw_piecewise_factory.h
index 241d128..081c074 100644
--- a/include/daw/daw_piecewise_factory.h
+++ b/include/daw/daw_piecewise_factory.h
@@ -117,22 +117,16 @@ namespace daw {
 			using value_t =
 			  decltype( remove_layer_func( std::declval<tp_val_t>( ) ) );
 
-			auto const setter = daw::overload(
-			  [&]( value_t const &v ) {
-				  std::get<N>( tp ) = value_t{ v };
-			  },
-			  [&]( value_t &&v ) {
-				  std::get<N>( tp ) = value_t{ std::move( v ) };
-			  },
-			  [&]( std::function<value_t( )> const &f ) {
-				  std::get<N>( tp ) = value_t{ f( ) };
-			  },
-			  [&]( std::function<value_t( )> &&f ) {
-				  std::get<N>( tp ) = value_t{ std::move( f )( ) };
-			  },
-			  []( ... ) noexcept {} );
-
-			setter( DAW_FWD( value ) );
+			if constexpr( std::is_convertible_v<Value, value_t> ) {
+				std::get<N>( tp ) = static_cast<value_t>( DAW_FWD( value ) );
+			} else if constexpr( std::is_convertible_v<Value,
+			                                           std::function<value_t( )>> ) {
+				std::function<value_t( )> f = DAW_FWD( value );
+				std::get<N>( tp ) = f( );
+			} else {
+				// Not a value for this argument
+				(void)value;
+			}
 		}
 
 		template<typename T, typename... Args>
-- 
2.43.0


From 860261ba5dbe724db369af32f8ef74641f8596eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 212/267] fix: swap_ranges compiles

---
 include/daw/daw_swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 65f24fe..012f69d 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -80,7 +80,7 @@ namespace daw {
 	  ForwardIterator2 first2 ) noexcept( noexcept( daw::iter_swap( first1,
 	                                                                first2 ) ) ) {
 		while( first1 != last1 ) {
-			daw::iter_swap( *first1, *first2 );
+			daw::iter_swap( first1, first2 );
 			++first1;
 			++first2;
 		}
-- 
2.43.0


From e18298e9afb559a9a6674163f487babf99a44b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 213/267] fix: observer_ptr converts from a pointer to another
 type

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From e07a28d9951c8452607b0e46a5dbda1d12a0a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 214/267] fix: prop_const_ptr postfix operators return a copy

---
 include/daw/daw_prop_const_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index 46064b8..d2988af 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator++( int ) {
+		constexpr prop_const_ptr operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
@@ -90,7 +90,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator--( int ) {
+		constexpr prop_const_ptr operator--( int ) {
 			auto result = *this;
 			--m_ptr;
 			return result;
-- 
2.43.0


From d375be51860fa37f16e41c42b4a3e84f4438cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:33 +0000
Subject: [PATCH 215/267] fix: to_reference_vector ends

---
 include/daw/daw_reference.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_reference.h b/include/daw/daw_reference.h
index 762ec0f..93a4f91 100644
--- a/include/daw/daw_reference.h
+++ b/include/daw/daw_reference.h
@@ -85,6 +85,7 @@ namespace daw {
 		values_type result{ };
 		while( first != last ) {
 			result.push_back( daw::ref<value_type>( *first ) );
+			++first;
 		}
 		return result;
 	}
-- 
2.43.0


From 890fd0c41789f0e4e07c6770f833061fac5fb6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 216/267] fix: dividing a natural number cannot make it zero

---
 include/daw/daw_natural.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..d642c60 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -82,18 +82,18 @@ namespace daw {
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value = validate( m_value / rhs.m_value );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value = validate( m_value % rhs.m_value );
 			return *this;
 		}
 
@@ -161,24 +161,22 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From 3eba3f675631cd4c878e87bcf1a2c0ad8310cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 217/267] fix: natural numbers of different types can be
 combined

---
 include/daw/daw_natural.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index d642c60..f16a6c8 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -24,6 +24,9 @@ namespace daw {
 		using value_type = daw::remove_cvref_t<T>;
 
 	private:
+		template<typename U, required<std::is_integral_v<U>>>
+		friend struct natural_t;
+
 		T m_value;
 
 		template<typename Value>
-- 
2.43.0


From e83364254026493a7aca48238aff71ab91ded08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 218/267] fix: adding to a const prop_const_ptr compiles

---
 include/daw/daw_prop_const_ptr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index d2988af..370c94f 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -112,7 +112,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr prop_const_ptr operator+( difference_type d ) const {
+		constexpr prop_const_ptr<std::add_const_t<value_type>>
+		operator+( difference_type d ) const {
 			auto result = prop_const_ptr<std::add_const_t<value_type>>( m_ptr );
 			result += d;
 			return result;
-- 
2.43.0


From 3f47628fcf94d347c95d69260a3c0f305493a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 219/267] fix: take is only noexcept when putting the new value
 in place is

---
 include/daw/daw_take.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_take.h b/include/daw/daw_take.h
index cd4ae55..f14a0cf 100644
--- a/include/daw/daw_take.h
+++ b/include/daw/daw_take.h
@@ -29,7 +29,9 @@ namespace daw {
 	                                      std::nullptr_t> = nullptr>
 	constexpr T
 	take( T &value ) noexcept( std::is_nothrow_move_constructible_v<T> and
-	                           std::is_nothrow_default_constructible_v<T> ) {
+	                           ( not reset_on_take<T> or
+	                             ( std::is_nothrow_default_constructible_v<T> and
+	                               std::is_nothrow_move_assignable_v<T> ) ) ) {
 		auto result = std::move( value );
 		if constexpr( reset_on_take<T> ) {
 			value = T{ };
@@ -58,7 +60,8 @@ namespace daw {
 		  : value( take( other.value ) ) {}
 
 		take_t &
-		operator=( take_t &&rhs ) noexcept( noexcept( take( rhs.value ) ) ) {
+		operator=( take_t &&rhs ) noexcept( noexcept( take( rhs.value ) ) and
+		                                    std::is_nothrow_move_assignable_v<T> ) {
 			value = take( rhs.value );
 			return *this;
 		}
@@ -79,7 +82,7 @@ namespace daw {
 			return value;
 		}
 
-		constexpr value_type operator*( ) && noexcept {
+		constexpr value_type operator*( ) && noexcept( noexcept( take( value ) ) ) {
 			return take( value );
 		}
 
@@ -103,7 +106,7 @@ namespace daw {
 			return value;
 		}
 
-		constexpr value_type get( ) && noexcept {
+		constexpr value_type get( ) && noexcept( noexcept( take( value ) ) ) {
 			return take( value );
 		}
 
-- 
2.43.0


From 9a2e013885098e1a9bb358a5354304f541349813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 220/267] fix: keep_n copies a value before it makes room for
 it

---
 include/daw/daw_keep_n.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_keep_n.h b/include/daw/daw_keep_n.h
index 818a6c6..18281c3 100644
--- a/include/daw/daw_keep_n.h
+++ b/include/daw/daw_keep_n.h
@@ -83,10 +83,12 @@ namespace daw {
 		constexpr void insert( value_type const &v ) {
 			for( size_t n = 0; n < MaxItems; ++n ) {
 				if( m_pred( v, m_values[n] ) ) {
+					// The copy can fail, and v can be one of the values
+					auto tmp = v;
 					for( size_t m = ( MaxItems - 1U ); m > n; --m ) {
 						m_values[m] = std::move( m_values[m - 1] );
 					}
-					m_values[n] = v;
+					m_values[n] = std::move( tmp );
 					break;
 				}
 			}
-- 
2.43.0


From 769ab530cd4641aafa46b482dd89ab9296750827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:38 +0000
Subject: [PATCH 221/267] fix: tuple2 get of a mutable or temporary tuple

---
 include/daw/daw_tuple2.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index c468b70..2589a8e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -116,7 +116,7 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &get( tuple2_impl::leaf<Index, Ts, true> &tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
@@ -126,22 +126,22 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, true> const &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts const &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, false> const &&tp ) {
-		return tp.value;
+		return static_cast<Ts const &&>( tp.value );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, true> &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, false> &&tp ) {
-		return tp.value;
+		return static_cast<Ts &&>( tp.value );
 	}
 
 	template<std::size_t, typename>
-- 
2.43.0


From 9bac8c3d01ad022bf3d98d53c908b8e412132846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 222/267] fix: keep_n is only noexcept when filling it is

---
 include/daw/daw_keep_n.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_keep_n.h b/include/daw/daw_keep_n.h
index 18281c3..76b0e11 100644
--- a/include/daw/daw_keep_n.h
+++ b/include/daw/daw_keep_n.h
@@ -74,7 +74,8 @@ namespace daw {
 
 	public:
 		constexpr keep_n( value_type const &default_value ) noexcept(
-		  std::is_nothrow_copy_constructible_v<T> ) {
+		  std::is_nothrow_default_constructible_v<T> and
+		  std::is_nothrow_copy_assignable_v<T> ) {
 			for( auto &v : m_values ) {
 				v = default_value;
 			}
-- 
2.43.0


From c1cd4c94eb401c1c3a38844fc0b9c61f54a0307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 223/267] fix: safe_pointer refers to where it points, not to
 the start of its range

---
 include/daw/daw_safe_pointer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_safe_pointer.h b/include/daw/daw_safe_pointer.h
index 053f827..5f4a5a0 100644
--- a/include/daw/daw_safe_pointer.h
+++ b/include/daw/daw_safe_pointer.h
@@ -168,7 +168,7 @@ namespace daw::memory {
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
 			DAW_SAFE_POINTER_ENSURE( *this );
-			return m_range.front( );
+			return *m_pointer;
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) const noexcept {
-- 
2.43.0


From 6fb5e71206801606de0047e257c600813ed12ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:38 +0000
Subject: [PATCH 224/267] fix: the swap functions are only noexcept when the
 swap is

---
 include/daw/daw_swap.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_swap.h b/include/daw/daw_swap.h
index 012f69d..b078dff 100644
--- a/include/daw/daw_swap.h
+++ b/include/daw/daw_swap.h
@@ -40,10 +40,26 @@ namespace daw {
 		                   std::declval<T &>( ), std::declval<U &>( ) ) )>> = true;
 	} // namespace swap_details
 
+	namespace swap_details {
+		template<typename T>
+		constexpr bool is_nothrow_cswap( ) noexcept {
+			if constexpr( std::is_trivially_copyable_v<T> or std::is_scalar_v<T> ) {
+				return true;
+			} else if constexpr( has_member_swap_v<T> ) {
+				return noexcept(
+				  std::declval<T &>( ).swap( std::declval<T &>( ) ) );
+			} else if constexpr( has_adl_swap_v<T> ) {
+				return noexcept(
+				  swap( std::declval<T &>( ), std::declval<T &>( ) ) );
+			} else {
+				return std::is_nothrow_swappable_v<T>;
+			}
+		}
+	} // namespace swap_details
+
 	template<typename T>
 	constexpr void cswap( T &&lhs, T &&rhs ) noexcept(
-	  std::conjunction_v<std::is_nothrow_move_assignable<T>,
-	                     std::is_nothrow_move_constructible<T>> ) {
+	  swap_details::is_nothrow_cswap<std::remove_reference_t<T>>( ) ) {
 		static_assert( not std::is_const_v<std::remove_reference_t<T>>,
 		               "Cannot swap const values" );
 		if constexpr( std::is_trivially_copyable_v<std::remove_reference_t<T>> ) {
@@ -67,8 +83,10 @@ namespace daw {
 	template<typename ForwardIterator1, typename ForwardIterator2>
 	constexpr void
 	iter_swap( ForwardIterator1 lhs, ForwardIterator2 rhs ) noexcept(
-	  std::conjunction_v<std::is_nothrow_move_assignable<decltype( *lhs )>,
-	                     std::is_nothrow_move_assignable<decltype( *rhs )>> ) {
+	  noexcept( *lhs = std::move( *rhs ) ) and
+	  noexcept( *rhs = std::move( *lhs ) ) and
+	  std::is_nothrow_constructible_v<std::decay_t<decltype( *lhs )>,
+	                                  decltype( std::move( *lhs ) )> ) {
 		auto tmp = std::move( *lhs );
 		*lhs = std::move( *rhs );
 		*rhs = std::move( tmp );
@@ -89,8 +107,7 @@ namespace daw {
 
 	template<typename T, size_t N>
 	constexpr void cswap( std::array<T, N> &lhs, std::array<T, N> &rhs ) noexcept(
-	  std::conjunction_v<std::is_nothrow_move_assignable<T>,
-	                     std::is_nothrow_move_constructible<T>> ) {
+	  noexcept( daw::swap_ranges( lhs.begin( ), lhs.end( ), rhs.begin( ) ) ) ) {
 
 		daw::swap_ranges( lhs.begin( ), lhs.end( ), rhs.begin( ) );
 	}
-- 
2.43.0


From 3f4bd5bdb261b7715139f31eee03588da59ddb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:04 +0000
Subject: [PATCH 225/267] fix: take makes the replacement before it takes the
 value

---
 include/daw/daw_take.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_take.h b/include/daw/daw_take.h
index f14a0cf..ecdb4d3 100644
--- a/include/daw/daw_take.h
+++ b/include/daw/daw_take.h
@@ -32,11 +32,16 @@ namespace daw {
 	                           ( not reset_on_take<T> or
 	                             ( std::is_nothrow_default_constructible_v<T> and
 	                               std::is_nothrow_move_assignable_v<T> ) ) ) {
-		auto result = std::move( value );
 		if constexpr( reset_on_take<T> ) {
-			value = T{ };
+			// Nothing is lost when the replacement cannot be made
+			auto replacement = T{ };
+			auto result = std::move( value );
+			value = std::move( replacement );
+			return result;
+		} else {
+			auto result = std::move( value );
+			return result;
 		}
-		return result;
 	}
 
 	template<typename T>
-- 
2.43.0


From 9c2e342dda3db22a44f83db0c7ebdbc4fead6738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:49 +0000
Subject: [PATCH 226/267] fix: adding to a map or element iterator moves the
 copy, not itself

---
 include/daw/pipelines/elements.h | 24 ++++++++++--------------
 include/daw/pipelines/map.h      | 13 ++++++-------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..ca87369 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -119,23 +119,21 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr element_iterator
-		operator+( difference_type n ) const noexcept
-		  requires( RandomIterator<Iterator> ) {
+		operator+( difference_type n ) const requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr element_iterator
-		operator-( difference_type n ) const noexcept
-		  requires( RandomIterator<Iterator> ) {
+		operator-( difference_type n ) const requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( element_iterator const &rhs )
+		operator-( element_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
@@ -311,23 +309,21 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr elements_iterator
-		operator+( difference_type n ) const noexcept
-		  requires( RandomIterator<Iterator> ) {
+		operator+( difference_type n ) const requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr elements_iterator
-		operator-( difference_type n ) const noexcept
-		  requires( RandomIterator<Iterator> ) {
+		operator-( difference_type n ) const requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( elements_iterator const &rhs )
+		operator-( elements_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..d2f95e9 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -128,23 +128,22 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr map_iterator
-		operator+( difference_type n ) const noexcept
-		  requires( RandomIterator<Iterator> ) {
+		operator+( difference_type n ) const requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr map_iterator
-		operator-( difference_type n ) const noexcept
-		  requires( RandomIterator<Iterator> ) {
+		operator-( difference_type n ) const requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const
+		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From 9053ccc435edee1009742d172f298f2ac8a2e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:49 +0000
Subject: [PATCH 227/267] fix: a map view applies its projection

---
 include/daw/pipelines/map.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index d2f95e9..30c70eb 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,25 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer(
+			  std::invoke( m_func, std::invoke( m_projection, *m_iter ) ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
-- 
2.43.0


From e6347b5860d5c825216cde7adcb5c9c419c34dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:49 +0000
Subject: [PATCH 228/267] fix: TakeWhile takes elements while the predicate
 holds

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..b3ce56d 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -52,13 +52,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From d5ec68e49a5b307447ca8773082a47f0ecac0488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:49 +0000
Subject: [PATCH 229/267] fix: dereferencing a pipeline iterator may throw what
 it wraps throws

---
 include/daw/pipelines/chunk.h          | 4 ++--
 include/daw/pipelines/concat.h         | 4 ++--
 include/daw/pipelines/flatten.h        | 4 ++--
 include/daw/pipelines/sized_iterator.h | 8 ++++----
 include/daw/pipelines/slide.h          | 4 ++--
 include/daw/pipelines/zip.h            | 8 ++++----
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..183557a 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -105,11 +105,11 @@ namespace daw::pipelines::pimpl {
 			return tmp;
 		}
 
-		[[nodiscard]] constexpr reference operator*( ) noexcept {
+		[[nodiscard]] constexpr reference operator*( ) {
 			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
 		}
 
-		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
+		[[nodiscard]] constexpr const_reference operator*( ) const {
 			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
 		}
 
diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 09c867e..64fdc96 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -93,13 +93,13 @@ namespace daw::pipelines {
 			return tmp;
 		}
 
-		[[nodiscard]] constexpr reference operator*( ) noexcept {
+		[[nodiscard]] constexpr reference operator*( ) {
 			return daw::visit_nt( m_ranges[m_index], []( auto &p ) -> reference {
 				return *p.first;
 			} );
 		}
 
-		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
+		[[nodiscard]] constexpr const_reference operator*( ) const {
 			return daw::visit_nt( m_ranges[m_index], []( auto &p ) -> reference {
 				return *p.first;
 			} );
diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 8fab762..2035f12 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -122,14 +122,14 @@ namespace daw::pipelines::pimpl {
 			return tmp;
 		}
 
-		[[nodiscard]] constexpr reference operator*( ) noexcept {
+		[[nodiscard]] constexpr reference operator*( ) {
 			assert( m_range_first != raend( ) );
 			assert( m_cur_first != std::end( *m_range_first ) );
 			assert( m_cur_first != sub_iterator_t{ } );
 			return *m_cur_first;
 		}
 
-		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
+		[[nodiscard]] constexpr const_reference operator*( ) const {
 			assert( m_range_first != raend( ) );
 			assert( m_cur_first != std::end( *m_range_first ) );
 			assert( m_cur_first != sub_iterator_t{ } );
diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 26fc392..d07160f 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -76,12 +76,12 @@ namespace daw::pipelines {
 			return tmp;
 		}
 
-		[[nodiscard]] DAW_ATTRIB_INLINE constexpr reference operator*( ) noexcept {
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr reference operator*( ) {
 			return *m_iter;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr const_reference
-		operator*( ) const noexcept {
+		operator*( ) const {
 			return *m_iter;
 		}
 
@@ -228,12 +228,12 @@ namespace daw::pipelines {
 			return tmp;
 		}
 
-		[[nodiscard]] DAW_ATTRIB_INLINE constexpr reference operator*( ) noexcept {
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr reference operator*( ) {
 			return *m_first;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr const_reference
-		operator*( ) const noexcept {
+		operator*( ) const {
 			return *m_first;
 		}
 
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..fde3b80 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -105,11 +105,11 @@ namespace daw::pipelines::pimpl {
 			return tmp;
 		}
 
-		[[nodiscard]] constexpr reference operator*( ) noexcept {
+		[[nodiscard]] constexpr reference operator*( ) {
 			return range_t<iterator>{ m_iter, std::next( m_iter, m_slide_size ) };
 		}
 
-		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
+		[[nodiscard]] constexpr const_reference operator*( ) const {
 			return range_t<iterator>{ m_iter, std::next( m_iter, m_slide_size ) };
 		}
 
diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..f6f798c 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -85,13 +85,13 @@ namespace daw::pipelines {
 
 		template<size_t... Is>
 		[[nodiscard]] DAW_ATTRIB_FLATINLINE constexpr reference
-		get_items( std::index_sequence<Is...> ) noexcept {
+		get_items( std::index_sequence<Is...> ) {
 			return { *std::get<Is>( m_iters )... };
 		}
 
 		template<size_t... Is>
 		[[nodiscard]] DAW_ATTRIB_FLATINLINE constexpr const_reference
-		get_items( std::index_sequence<Is...> ) const noexcept {
+		get_items( std::index_sequence<Is...> ) const {
 			return { *std::get<Is>( m_iters )... };
 		}
 
@@ -120,11 +120,11 @@ namespace daw::pipelines {
 			return tmp;
 		}
 
-		[[nodiscard]] constexpr reference operator*( ) noexcept {
+		[[nodiscard]] constexpr reference operator*( ) {
 			return get_items( zip_indices( ) );
 		}
 
-		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
+		[[nodiscard]] constexpr const_reference operator*( ) const {
 			return get_items( zip_indices( ) );
 		}
 
-- 
2.43.0


From 65ae527e68de275e8e1f2591e8b4b8ef8ac9daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:49 +0000
Subject: [PATCH 230/267] fix: the difference of two ranges has the sign of a
 difference

---
 include/daw/pipelines/range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index 7f7e20d..dddaa55 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -152,7 +152,7 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( range_t const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::distance( first, rhs.first );
+			return std::distance( rhs.first, first );
 		}
 
 		constexpr bool operator==( range_t const &rhs ) const = default;
-- 
2.43.0


From 49f657dc077521734233fce1603b5ac15816c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:49 +0000
Subject: [PATCH 231/267] fix: iota_iterator can be indexed

---
 include/daw/pipelines/iota.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..0ec6d21 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -103,12 +103,12 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return *( *this + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return *( *this + static_cast<difference_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From 8a836c970cdd2fb6a9c8bccae929880c84b02fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 232/267] fix: a concatenation skips empty ranges and takes a
 tuple of ranges

---
 include/daw/pipelines/concat.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 64fdc96..0e34dd9 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -54,13 +54,24 @@ namespace daw::pipelines {
 			                   std::end( std::get<Is>( std::move( ranges ) ) ) )... };
 		}
 
+		constexpr void skip_empty( ) {
+			while( m_index < m_ranges.size( ) and
+			       daw::visit_nt( m_ranges[m_index], []( auto &p ) -> bool {
+				       return p.first == p.second;
+			       } ) ) {
+				++m_index;
+			}
+		}
+
 	public:
 		explicit concat_view( ) = default;
 
 		explicit constexpr concat_view( Ranges... ranges )
 		  : m_ranges(
 		      get_iter_pair( std::make_index_sequence<sizeof...( Ranges )>{ },
-		                     std::tuple{ std::move( ranges )... } ) ) {}
+		                     std::tuple{ std::move( ranges )... } ) ) {
+			skip_empty( );
+		}
 
 		concat_view begin( ) const {
 			return *this;
@@ -80,10 +91,8 @@ namespace daw::pipelines {
 		constexpr concat_view &operator++( ) {
 			daw::visit_nt( m_ranges[m_index], [&]( auto &p ) {
 				++p.first;
-				if( p.first == p.second ) {
-					++m_index;
-				}
 			} );
+			skip_empty( );
 			return *this;
 		}
 
@@ -146,7 +155,7 @@ namespace daw::pipelines {
 						  range_t{ std::begin( get<Is>( DAW_FWD( r ) ) ),
 						           std::end( get<Is>( DAW_FWD( r ) ) ) }... };
 					}( std::make_index_sequence<
-					         daw::remove_cvref_t<R>::types_size_v>{ } );
+					         std::tuple_size_v<daw::remove_cvref_t<R>>>{ } );
 				}
 			}
 		};
-- 
2.43.0


From b1d4622e9236c91064c07866398b4c2f7f1bdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 233/267] fix: flatten skips empty sub ranges

---
 include/daw/pipelines/flatten.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 2035f12..c15cafd 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -73,12 +73,19 @@ namespace daw::pipelines::pimpl {
 		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
 			assert( m_range_first != raend( ) );
 			++m_range_first;
-			if( m_range_first == raend( ) ) {
-				m_cur_first = sub_iterator_t{ };
-				assert( *this == end( ) );
-			} else {
+			find_sub_range( );
+		}
+
+		/// Go to the start of the first sub range, from here on, that has an element
+		constexpr void find_sub_range( ) {
+			while( m_range_first != raend( ) ) {
 				m_cur_first = std::begin( *m_range_first );
+				if( m_cur_first != std::end( *m_range_first ) ) {
+					return;
+				}
+				++m_range_first;
 			}
+			m_cur_first = sub_iterator_t{ };
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_sub_range( ) {
@@ -98,10 +105,9 @@ namespace daw::pipelines::pimpl {
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
 		  : m_range( DAW_FWD( r ) )
-		  , m_range_first( rabegin( ) )
-		  , m_cur_first( m_range_first == raend( )
-		                   ? sub_iterator_t{ }
-		                   : std::begin( *m_range_first ) ) {}
+		  , m_range_first( rabegin( ) ) {
+			find_sub_range( );
+		}
 
 		[[nodiscard]] constexpr flatten_view begin( ) const {
 			return *this;
-- 
2.43.0


From 18aed0d50ed7fea9fd1238a8929afb338005ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 234/267] fix: the last chunk ends where the range does

---
 include/daw/pipelines/chunk.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 183557a..e7f3f41 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/cpp_17.h"
+#include "daw/daw_algorithm.h"
 #include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
@@ -106,11 +107,13 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), m_chunk_size ) };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), m_chunk_size ) };
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 0e5bd0031f5c9e0d9a212d61d18866fe9cf9d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 235/267] fix: a range shorter than the window has no window

---
 include/daw/pipelines/slide.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index fde3b80..03b0d24 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -64,7 +64,17 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+			// There is no window at all when the range is shorter than one
+			auto it = m_iter;
+			for( auto n = m_slide_size; n > 0; --n ) {
+				if( it == ra_end( ) ) {
+					m_iter = it;
+					break;
+				}
+				++it;
+			}
+		}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From 9ec6dd9e421414d2d9ef05f0ffe7c9c58e3ef7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 236/267] fix: Unique works on a named range, and copying one
 may throw

---
 include/daw/pipelines/unique.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..333ac88 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -111,10 +111,12 @@ namespace daw::pipelines {
 		R m_range;
 
 	public:
-		explicit constexpr unique_range( R const &r ) noexcept
+		explicit constexpr unique_range( R const &r ) noexcept(
+		  std::is_nothrow_copy_constructible_v<R> )
 		  : m_range{ r } {}
 
-		explicit constexpr unique_range( R &&r ) noexcept
+		explicit constexpr unique_range( R &&r ) noexcept(
+		  std::is_nothrow_move_constructible_v<R> )
 		  : m_range{ std::move( r ) } {}
 
 		[[nodiscard]] constexpr iterator begin( ) {
@@ -150,7 +152,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From 399dc76314a36f7e7c32a95eec143da11c71ecf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 237/267] fix: Sort, Max, Min and MinMax take a comparison

---
 include/daw/pipelines/algorithm.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/algorithm.h b/include/daw/pipelines/algorithm.h
index 73a1e87..0c6096b 100644
--- a/include/daw/pipelines/algorithm.h
+++ b/include/daw/pipelines/algorithm.h
@@ -30,9 +30,12 @@ namespace daw::pipelines {
 			DAW_NO_UNIQUE_ADDRESS Compare m_compare{ };
 			DAW_NO_UNIQUE_ADDRESS Projection m_projection{ };
 
-			[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
-			operator( )( auto &&compare ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Sort_t{ DAW_FWD( compare ) };
+			template<typename C>
+			requires( not Range<C> ) //
+			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
+			  constexpr auto operator( )( C &&compare )
+			    DAW_CPP23_STATIC_CALL_OP_CONST {
+				return Sort_t<daw::remove_cvref_t<C>>{ DAW_FWD( compare ) };
 			}
 
 			[[nodiscard]] constexpr decltype( auto )
@@ -67,7 +70,8 @@ namespace daw::pipelines {
 			  constexpr auto operator( )( C &&compare,
 			                              P &&projection = Projection{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Max_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Max_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -101,7 +105,8 @@ namespace daw::pipelines {
 			  constexpr auto operator( )( C &&compare,
 			                              P &&projection = Projection{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Min_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Min_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -135,7 +140,8 @@ namespace daw::pipelines {
 			  constexpr auto operator( )( C &&compare,
 			                              P &&projection = Projection{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return MinMax_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return MinMax_t<daw::remove_cvref_t<C>, daw::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
-- 
2.43.0


From f12b4021703ae2f32c6990624bc54f6cb5a4eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 238/267] fix: the Kahan sum calls its projection with the
 value

---
 include/daw/pipelines/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..b92e0ba 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -94,7 +94,7 @@ namespace daw::pipelines {
 						if constexpr( std::is_same_v<Projection, IdentityFn_t> ) {
 							return cur_v;
 						} else {
-							return std::invoke( cur_v, m_projection );
+							return std::invoke( m_projection, cur_v );
 						}
 					}( );
 					auto t = sum + input;
-- 
2.43.0


From f44f52ee4bc4cc785e830192985ee0e7217d796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 239/267] fix: EnumerateApply numbers the range it is given

---
 include/daw/pipelines/enumerate.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 2279da1..afea540 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -46,10 +46,11 @@ namespace daw::pipelines::pimpl {
 			if constexpr( RandomRange<R> ) {
 				auto const sz = static_cast<EnumType>(
 				  std::distance( std::begin( r ), std::end( r ) ) );
-				return ZipMore( iota_view<EnumType>( EnumType{ }, sz ), DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>( EnumType{ }, sz ) )(
+				  DAW_FWD( r ) );
 			} else {
-				return ZipMore( iota_view<EnumType>( EnumType{ }, max_value<EnumType> ),
-				                DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>( EnumType{ }, max_value<EnumType> ) )(
+				  DAW_FWD( r ) );
 			}
 		}
 	};
@@ -62,11 +63,11 @@ namespace daw::pipelines::pimpl {
 			if constexpr( RandomRange<R> ) {
 				auto const sz = static_cast<EnumType>(
 				  std::distance( std::begin( r ), std::end( r ) ) );
-				return ZipMore( iota_view<EnumType>( offset, offset + sz ),
-				                DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>( offset, offset + sz ) )(
+				  DAW_FWD( r ) );
 			} else {
-				return ZipMore( iota_view<EnumType>( offset, max_value<EnumType> ),
-				                DAW_FWD( r ) );
+				return ZipMore( iota_view<EnumType>( offset, max_value<EnumType> ) )(
+				  DAW_FWD( r ) );
 			}
 		}
 	};
-- 
2.43.0


From 00314779175b143d3c92dc4b2c5dd8ff6b40cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 240/267] fix: split steps over the whole delimiter and without
 being looked at

---
 include/daw/pipelines/split.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..77fae85 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -35,7 +35,7 @@ namespace daw::pipelines {
 			std::ptrdiff_t length;
 
 			constexpr std::ptrdiff_t size( ) {
-				return 1;
+				return length;
 			}
 
 			constexpr delimiter_length_t( Delimiter const &d )
@@ -97,6 +97,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr split_view_iterator &operator++( ) {
+			increment_iterator( );
 			assert( m_next );
 			m_first = std::move( *m_next );
 			m_next.reset( );
@@ -119,10 +120,11 @@ namespace daw::pipelines {
 		}
 
 		constexpr bool operator==( split_view_iterator const &rhs ) const {
-			return m_first == rhs.m_first and m_last == rhs.m_last and
-			       m_next == rhs.m_next;
+			return m_first == rhs.m_first and m_last == rhs.m_last;
+		}
+		constexpr bool operator!=( split_view_iterator const &rhs ) const {
+			return not( *this == rhs );
 		}
-		constexpr bool operator!=( split_view_iterator const &rhs ) const = default;
 	};
 
 	template<ForwardRange R, typename Delimiter,
-- 
2.43.0


From 8ad6f779f0879fa9d52006617b446e957388f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 241/267] fix: a zip is as long as its shortest range, and does
 not copy what it was given by name

---
 include/daw/pipelines/zip.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index f6f798c..56c2417 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -198,7 +198,19 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+			// The ranges may have different lengths, the shortest one ends the zip
+			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
+				difference_type result =
+				  std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+				auto const shortest = [&]( difference_type d ) {
+					if( ( d < 0 ? -d : d ) < ( result < 0 ? -result : result ) ) {
+						result = d;
+					}
+				};
+				( shortest( std::get<Is>( m_iters ) - std::get<Is>( rhs.m_iters ) ),
+				  ... );
+				return result;
+			}( zip_indices( ) );
 		}
 
 		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
@@ -274,7 +286,11 @@ namespace daw::pipelines {
 	/// merge them
 	template<Range... Ranges>
 	[[nodiscard]] constexpr auto ZipMore( Ranges &&...rs ) {
-		return [=]<Range R>( R &&r ) {
+		// A range that was given by name is not copied, the iterators of a copy
+		// would not outlive it
+		return [tp_rs = std::tuple<Ranges...>( DAW_FWD( rs )... )]<Range R>(
+		         R &&r ) {
+		  return std::apply( [&]( auto &...rs ) {
 			if constexpr( requires( R ) {
 				              typename iterator_t<R>::i_am_a_daw_zip_iterator_class;
 			              } ) {
@@ -299,6 +315,7 @@ namespace daw::pipelines {
 			} else {
 				return zip_view( rs..., DAW_FWD( r ) );
 			}
+		  }, tp_rs );
 		};
 	}
 } // namespace daw::pipelines
-- 
2.43.0


From 6d0f1f5e6ae5b2631e9522e3fb72f21cb5cac7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 242/267] fix: Take ends after what it took, also in a range
 that is read once

---
 include/daw/pipelines/sized_iterator.h | 3 ++-
 include/daw/pipelines/take.h           | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index d07160f..6b5eeac 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -207,7 +207,8 @@ namespace daw::pipelines {
 		                                   std::size_t how_many )
 		  : m_first( first )
 		  , m_last( last )
-		  , m_count( static_cast<difference_type>( how_many ) ) {}
+		  , m_count( first == last ? difference_type{ }
+		                           : static_cast<difference_type>( how_many ) ) {}
 
 		[[nodiscard]] constexpr auto &base( ) {
 			return m_first;
diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index b3ce56d..5730678 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -37,10 +37,11 @@ namespace daw::pipelines::pimpl {
 				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
 				return range_t{ sized_iterator<iter_t>{
 				                  first, static_cast<std::size_t>( take_size ) },
-				                sized_iterator<iter_t>{ last, 0 } };
+				                sized_iterator<iter_t>{
+				                  std::next( first, take_size ), 0 } };
 			} else {
-				return range_t{ sized_iterator<iter_t>{ first, how_many },
-				                sized_iterator<iter_t>{ last, 0 } };
+				return range_t{ sized_iterator<iter_t>{ first, last, how_many },
+				                sized_iterator<iter_t>{ last, last, 0 } };
 			}
 		}
 	};
-- 
2.43.0


From b0d17d4ef209a087cea7eadab93e9acfc3705143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 243/267] fix: a cached value can be filtered

---
 include/daw/pipelines/cache_last_view.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index 7250bc2..7abeadb 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -30,7 +30,7 @@ namespace daw::pipelines {
 
 	private:
 		It m_iterator = It{ };
-		std::optional<value_type> m_cached = std::nullopt;
+		mutable std::optional<value_type> m_cached = std::nullopt;
 
 	public:
 		cache_last_iterator( ) = default;
@@ -45,10 +45,21 @@ namespace daw::pipelines {
 			return *m_cached;
 		}
 
+		constexpr reference value( ) const {
+			if( not m_cached ) {
+				m_cached.emplace( *m_iterator );
+			}
+			return *m_cached;
+		}
+
 		constexpr reference operator*( ) {
 			return value( );
 		}
 
+		constexpr reference operator*( ) const {
+			return value( );
+		}
+
 		constexpr pointer operator->( ) {
 			return pointer{ value( ) };
 		}
-- 
2.43.0


From b805191de61f798b5b5117e72cad3845f9f1e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:16 +0000
Subject: [PATCH 244/267] fix: the elements of a view can be taken without
 naming it

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index ca87369..6815ae6 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -180,8 +180,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr element_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -200,7 +200,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return element_view<daw::remove_rvalue_ref_t<R>, Index>{
-			  daw::forward_lvalue<R>( r ) };
+			  r };
 		}
 	};
 
@@ -371,8 +371,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr elements_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -391,7 +391,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return elements_view<daw::remove_rvalue_ref_t<R>, Indices...>{
-			  daw::forward_lvalue<R>( r ) };
+			  r };
 		}
 	};
 
-- 
2.43.0


From 97535f027fe504700762ee8af0058203fcc27bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:16 +0000
Subject: [PATCH 245/267] fix: stepping within bounds works on forward
 iterators and may throw

---
 include/daw/daw_algorithm.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index ab7ff17..d6d5eb2 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -91,13 +91,15 @@ namespace daw {
 		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
-		                                  Distance dist ) noexcept {
+		                                  Distance dist ) {
 
 			// Move it forward towards last
 			for( ; it != last and dist > 0; --dist, ++it ) {}
 
-			// Move it backwards towards first
-			for( ; it != first and dist < 0; ++dist, --it ) {}
+			if constexpr( requires { --it; } ) {
+				// Move it backwards towards first
+				for( ; it != first and dist < 0; ++dist, --it ) {}
+			}
 		}
 
 		template<
@@ -106,7 +108,7 @@ namespace daw {
 		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
-		                                  Distance dist ) noexcept {
+		                                  Distance dist ) {
 
 			if( dist < 0 ) {
 				auto const dist_to_first = it - first;
@@ -138,7 +140,7 @@ namespace daw {
 	/// @param distance how far to move
 	template<typename Container, typename Iterator, typename Distance>
 	constexpr void safe_advance( Container &container, Iterator &it,
-	                             Distance distance ) noexcept {
+	                             Distance distance ) {
 
 		traits::is_container_like_test<Container>( );
 		traits::is_iterator_test<Iterator>( );
@@ -159,7 +161,7 @@ namespace daw {
 	/// @param distance how far to move
 	template<typename Container, typename Iterator, typename Distance>
 	constexpr void safe_advance( Container const &container, Iterator &it,
-	                             Distance distance ) noexcept {
+	                             Distance distance ) {
 
 		traits::is_container_like_test<Container>( );
 		traits::is_iterator_test<Iterator>( );
-- 
2.43.0


From cbb85c120ab23c845419e87543ff667b17a337eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 246/267] fix: Flatten can flatten a range that has a name

---
 include/daw/pipelines/flatten.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index c15cafd..cc2348a 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -35,6 +35,17 @@ namespace daw::pipelines::pimpl {
 		iterator_t m_range_first{ };
 	};
 
+	/// The range that is being flattened, or a reference to it when it is named
+	template<typename R>
+	struct flatten_range_t {
+		mutable R value;
+	};
+
+	template<typename R>
+	struct flatten_range_t<R &> {
+		R &value;
+	};
+
 	template<ForwardRange R>
 	struct flatten_view : range_base_t<flatten_view<R>, flatten_view_end_t<R>> {
 		using iterator_t = daw::iterator_t<R>;
@@ -49,25 +60,24 @@ namespace daw::pipelines::pimpl {
 	private:
 		using end_t = flatten_view_end_t<R>;
 
-		using m_range_t = daw::remove_cvrvref_t<R>;
-		mutable m_range_t m_range;
+		flatten_range_t<daw::remove_cvrvref_t<R>> m_range;
 		iterator_t m_range_first{ };
 		sub_iterator_t m_cur_first{ };
 
 		[[nodiscard]] constexpr auto rabegin( ) {
-			return std::begin( m_range );
+			return std::begin( m_range.value );
 		}
 
 		[[nodiscard]] constexpr auto rabegin( ) const {
-			return std::begin( m_range );
+			return std::begin( m_range.value );
 		}
 
 		[[nodiscard]] constexpr auto raend( ) {
-			return std::end( m_range );
+			return std::end( m_range.value );
 		}
 
 		[[nodiscard]] constexpr auto raend( ) const {
-			return std::end( m_range );
+			return std::end( m_range.value );
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
@@ -104,7 +114,7 @@ namespace daw::pipelines::pimpl {
 		requires( not std::same_as<std::remove_cvref_t<U>,
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
-		  : m_range( DAW_FWD( r ) )
+		  : m_range{ DAW_FWD( r ) }
 		  , m_range_first( rabegin( ) ) {
 			find_sub_range( );
 		}
-- 
2.43.0


From 217d3586f84dae015c57cd1a68670e4d26472145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 247/267] fix: Enumerate can number the elements of a const
 range

---
 include/daw/pipelines/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index afea540..eb256cf 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -23,7 +23,7 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
+			return zip_view<iota_view<EnumType>, daw::remove_rvalue_ref_t<R>>(
 			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
 		}
 	};
@@ -33,7 +33,7 @@ namespace daw::pipelines::pimpl {
 		EnumType offset = EnumType{ };
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
+			return zip_view<iota_view<EnumType>, daw::remove_rvalue_ref_t<R>>(
 			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
 		}
 	};
-- 
2.43.0


From 78000dd342130d79738f10cb6909baaf53c3bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 248/267] fix: A plain function can be a stage of a pipeline

---
 include/daw/pipelines/pipeline.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/pipeline.h b/include/daw/pipelines/pipeline.h
index 8d44199..ba268ba 100644
--- a/include/daw/pipelines/pipeline.h
+++ b/include/daw/pipelines/pipeline.h
@@ -67,8 +67,9 @@ namespace daw::pipelines::pimpl {
 		F f;
 
 		template<typename... Args>
-		[[nodiscard]] constexpr auto operator( )( Args &&...args ) const {
-			static_assert( std::invocable<F, Args...> );
+		requires( std::invocable<F const &, Args...> ) //
+		  [[nodiscard]] constexpr auto
+		  operator( )( Args &&...args ) const {
 			return f( DAW_FWD( args )... );
 		}
 	};
-- 
2.43.0


From 53b0507c549ab93e3065149861832ba415789bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:51 +0000
Subject: [PATCH 249/267] fix: A range_t can be compared

---
 include/daw/pipelines/range_base.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/daw/pipelines/range_base.h b/include/daw/pipelines/range_base.h
index eb10d9e..7bc05c6 100644
--- a/include/daw/pipelines/range_base.h
+++ b/include/daw/pipelines/range_base.h
@@ -11,6 +11,7 @@
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_remove_cvref.h"
 
+#include <compare>
 #include <cstddef>
 #include <daw/stdinc/tuple_traits.h>
 
@@ -22,6 +23,9 @@ namespace daw::pipelines {
 		using iterator_last_t = Last;
 
 		range_base_t( ) = default;
+
+		constexpr bool operator==( range_base_t const & ) const = default;
+		constexpr auto operator<=>( range_base_t const & ) const = default;
 	};
 
 	template<typename R>
-- 
2.43.0


From 31d2da1ff92c99211a7047cff10a2d2b807148a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:53 +0000
Subject: [PATCH 250/267] fix: The distance between iota iterators of an
 unsigned type

---
 include/daw/pipelines/iota.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 0ec6d21..dc0beb5 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -16,6 +16,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 #include <utility>
 
@@ -99,7 +100,15 @@ namespace daw::pipelines {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( iota_iterator const &i ) const {
-			return static_cast<difference_type>( value - i.value );
+			// The greater is first, value_type can be unsigned or wider than a
+			// difference_type can tell
+			auto const distance = []( value_type const &hi, value_type const &lo ) {
+				auto const result = static_cast<difference_type>( hi - lo );
+				return result < 0 ? std::numeric_limits<difference_type>::max( )
+				                  : result;
+			};
+			return value < i.value ? -distance( i.value, value )
+			                       : distance( value, i.value );
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-- 
2.43.0


From dc8527c8a7fc2e1a11ce9f5ec4b75c621b60a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 251/267] fix: sized_iterator counts a step only when it was
 made

---
 include/daw/pipelines/sized_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 6b5eeac..5657097 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -33,21 +33,21 @@ namespace daw::pipelines {
 		difference_type m_count = 0;
 
 		constexpr void increment( ) {
-			--m_count;
 			++m_iter;
+			--m_count;
 #if defined( DEBUG ) or not defined( NDEBUG )
 			daw_ensure( m_count >= 0 );
 #endif
 		}
 
 		constexpr void decrement( ) {
-			++m_count;
 			--m_iter;
+			++m_count;
 		}
 
 		constexpr void advance( difference_type n ) {
-			m_count -= std::min( { n, m_count } );
 			std::advance( m_iter, n );
+			m_count -= std::min( { n, m_count } );
 		}
 
 	public:
-- 
2.43.0


From a0eec69cfb73cee3f37b8ae0970b14938dcd056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:29 +0000
Subject: [PATCH 252/267] fix: <= of two unique_ptr is not >=

---
 include/daw/daw_maybe_unique_ptr.h | 2 +-
 include/daw/daw_unique_ptr.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a38fedc..302f3df 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -291,7 +291,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index c6d66a6..1b59856 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -468,7 +468,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From 14e4cc033d5e726e92a4d157e95fab0c18730947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:45 +0000
Subject: [PATCH 253/267] fix: safe_next, safe_prev, safe_advance and begin_at
 with a distance larger than a ptrdiff_t go to the end

---
 include/daw/daw_algorithm.h | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d6d5eb2..ea0a04f 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -36,6 +36,7 @@
 #include <daw/stdinc/data_access.h>
 #include <daw/stdinc/range_access.h>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <type_traits>
 #include <vector>
@@ -85,6 +86,22 @@ namespace daw {
 
 	// Iterator movement functions
 	namespace algorithm_details {
+		/// The distance as a ptrdiff_t.  One too large to be a ptrdiff_t is
+		/// farther than the end of any range
+		template<typename Distance>
+		constexpr std::ptrdiff_t as_difference( Distance distance ) {
+			if constexpr( std::is_integral_v<Distance> ) {
+				if constexpr( std::is_unsigned_v<Distance> ) {
+					constexpr auto largest =
+					  ( std::numeric_limits<std::ptrdiff_t>::max )( );
+					if( distance > static_cast<std::size_t>( largest ) ) {
+						return largest;
+					}
+				}
+			}
+			return static_cast<std::ptrdiff_t>( distance );
+		}
+
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
@@ -116,9 +133,8 @@ namespace daw {
 					it = first;
 					return;
 				}
-				dist = -dist;
-				it -= (daw::min)( static_cast<ptrdiff_t>( dist_to_first ),
-				                  static_cast<ptrdiff_t>( dist ) );
+				it -= -(daw::max)( -static_cast<ptrdiff_t>( dist_to_first ),
+				                   static_cast<ptrdiff_t>( dist ) );
 				return;
 			}
 			auto const dist_to_last = last - it;
@@ -147,7 +163,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::as_difference( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -168,7 +184,7 @@ namespace daw {
 
 		using std::begin;
 		using std::end;
-		auto const d = static_cast<ptrdiff_t>( distance );
+		auto const d = algorithm_details::as_difference( distance );
 		algorithm_details::safe_advance_impl( begin( container ), it,
 		                                      end( container ), d );
 	}
@@ -186,7 +202,7 @@ namespace daw {
 	  noexcept( daw::next( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::as_difference( n );
 		algorithm_details::safe_advance_impl( it, it, last, d );
 		return it;
 	}
@@ -204,7 +220,7 @@ namespace daw {
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
 
 		traits::is_iterator_test<Iterator>( );
-		auto const d = static_cast<ptrdiff_t>( n );
+		auto const d = algorithm_details::as_difference( n );
 		algorithm_details::safe_advance_impl( first, it, it, -d );
 		return it;
 	}
@@ -223,7 +239,7 @@ namespace daw {
 
 		traits::is_container_like_test<Container>( );
 		auto result = std::begin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 
@@ -242,7 +258,7 @@ namespace daw {
 		traits::is_container_like_test<Container>( );
 
 		auto result = std::cbegin( container );
-		safe_advance( container, result, static_cast<ptrdiff_t>( n ) );
+		safe_advance( container, result, n );
 		return result;
 	}
 } // namespace daw
-- 
2.43.0


From eff8b76298dcc7fc956a80fee3a6632c52de41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:45 +0000
Subject: [PATCH 254/267] fix: Take, Skip, Chunk and Slide of more elements
 than a ptrdiff_t can count

---
 include/daw/pipelines/chunk.h | 2 +-
 include/daw/pipelines/skip.h  | 4 ++--
 include/daw/pipelines/slide.h | 2 +-
 include/daw/pipelines/take.h  | 3 ++-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index e7f3f41..20bb41e 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -65,7 +65,7 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr chunk_view( Range auto &&r, std::size_t chunk_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_chunk_size{ static_cast<difference_type>( chunk_size ) } {}
+		  , m_chunk_size{ algorithm_details::as_difference( chunk_size ) } {}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..8e66d66 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -28,8 +28,8 @@ namespace daw::pipelines::pimpl {
 
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
-				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
+				auto const skip = static_cast<std::ptrdiff_t>( std::min(
+				  { how_many, static_cast<std::size_t>( range_size ) } ) );
 				first = std::next( first, skip );
 			} else {
 				// Input
diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index 03b0d24..ae59ed0 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -64,7 +64,7 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+		  , m_slide_size{ algorithm_details::as_difference( slide_size ) } {
 			// There is no window at all when the range is shorter than one
 			auto it = m_iter;
 			for( auto n = m_slide_size; n > 0; --n ) {
diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 5730678..52c568b 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -34,7 +34,8 @@ namespace daw::pipelines::pimpl {
 			if constexpr( ForwardIterator<iter_t> ) {
 				auto const range_size = std::distance( first, last );
 				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
+				  static_cast<std::ptrdiff_t>( std::min(
+				    { static_cast<std::size_t>( range_size ), how_many } ) );
 				return range_t{ sized_iterator<iter_t>{
 				                  first, static_cast<std::size_t>( take_size ) },
 				                sized_iterator<iter_t>{
-- 
2.43.0


From 04826e51e3dff72d075a77c89b58eb82e6f3c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:45 +0000
Subject: [PATCH 255/267] fix: CountIf counts an element once whatever its
 predicate returns for true

---
 include/daw/pipelines/numeric.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index b92e0ba..37128ed 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -53,7 +53,9 @@ namespace daw::pipelines {
 			operator( )( Range auto const &r ) const {
 				std::size_t result = 0;
 				for( auto const &v : r ) {
-					result += static_cast<std::size_t>( fn( v ) );
+					if( fn( v ) ) {
+						++result;
+					}
 				}
 				return result;
 			}
-- 
2.43.0


From 79f1cbcc59267db464480d19d048617ddfcd8487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:26 +0000
Subject: [PATCH 256/267] fix: bits popped from the back of a bit queue wider
 than its values

---
 include/daw/daw_bit_queues.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..f58b8c1 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -107,12 +107,13 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
-			m_size -= bits;
+			if( bits == 0 ) {
+				return 0;
+			}
+			auto const remaining = m_size - bits;
+			auto const result = static_cast<value_type>( m_queue >> remaining );
+			m_queue &= mask_msb<queue_type>( capacity( ) - remaining );
+			m_size = remaining;
 			return result;
 		}
 
-- 
2.43.0


From c9eb75b3ffe7a9571a93beb96fc88099ac90f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:26 +0000
Subject: [PATCH 257/267] fix: pushing or popping all bits of a bit queue at
 once shifted by its width

---
 include/daw/daw_bit_queues.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index f58b8c1..70412ee 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -88,7 +88,11 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			if( bits < capacity( ) ) {
+				m_queue <<= bits;
+			} else {
+				m_queue = 0;
+			}
 			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
 			m_size += bits;
 		}
@@ -99,7 +103,11 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			if( bits < capacity( ) ) {
+				m_queue >>= bits;
+			} else {
+				m_queue = 0;
+			}
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 4aa67f678ac8ead0078b42ddae419bd57903f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 258/267] fix: popping more bits from the front of a bit queue
 than it has throws, as from the back

---
 include/daw/daw_bit_queues.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 70412ee..9b4dbd4 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -97,7 +97,7 @@ namespace daw {
 			m_size += bits;
 		}
 
-		[[nodiscard]] constexpr value_type pop_front( size_t const bits ) noexcept {
+		[[nodiscard]] constexpr value_type pop_front( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
@@ -185,7 +185,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] value_type
-		pop_front( size_t num_nibbles = sizeof( value_type ) * 2 ) noexcept {
+		pop_front( size_t num_nibbles = sizeof( value_type ) * 2 ) {
 			return m_queue.pop_front( num_nibbles * 4 );
 		}
 
-- 
2.43.0


From 0b33f476d3c3c2b6de107d6f1e0e3dccb62d7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 259/267] fix: a bit stream keeps its left over bits when the
 next item cannot be read

---
 include/daw/daw_bit_stream.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 18b719d..2f338e9 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -57,16 +57,18 @@ namespace daw {
 			value_type result = 0;
 
 			if( num_bits > m_left_overs.size( ) ) {
-				if( !m_left_overs.empty( ) ) {
-					num_bits -= m_left_overs.size( );
-					result = m_left_overs.pop_all( );
-					result <<= num_bits;
-				}
 				daw::exception::dbg_throw_on_true<std::out_of_range>(
 				  m_first == m_last, "Attempt to iterate past last item" );
 
-				m_left_overs.push_back( *m_first );
+				// Read first, nothing is lost if that throws
+				auto const next = static_cast<value_type>( *m_first );
 				++m_first;
+				if( !m_left_overs.empty( ) ) {
+					num_bits -= m_left_overs.size( );
+					result = m_left_overs.pop_all( );
+					result = static_cast<value_type>( result << num_bits );
+				}
+				m_left_overs.push_back( next );
 			}
 			result |= m_left_overs.pop_back( num_bits );
 			return result;
-- 
2.43.0


From 37169d938622897bc3f806d72cb7dd467e14b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 260/267] fix: pop_value of a bit stream did not compile

---
 include/daw/daw_bit_stream.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 2f338e9..22ad672 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -82,13 +82,15 @@ namespace daw {
 	template<typename T, typename BitStream>
 	auto pop_value( BitStream &bs, size_t bits_needed ) {
 		daw::exception::dbg_throw_on_false(
-		  bits_needed <= bit_count_t<T>,
+		  bits_needed <= bit_count_v<T>,
 		  "Attempt to extra more bits than can fit" );
 
 		using value_type = typename BitStream::value_type;
 		T result = 0;
 		while( bits_needed >= bit_count_v<value_type> ) {
-			result <<= bit_count_v<value_type>;
+			if constexpr( bit_count_v<value_type> < bit_count_v<T> ) {
+				result <<= bit_count_v<value_type>;
+			}
 			result |= bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
-- 
2.43.0


From 35de54094ebeb37d19004aea60701271a019e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 261/267] fix: skip_bits skips the bits that do not make up a
 whole item too

---
 include/daw/daw_bit_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 22ad672..8eceb05 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -111,9 +111,12 @@ namespace daw {
 		using value_type = typename BitStream::value_type;
 
 		while( bits_needed >= bit_count_v<value_type> ) {
-			bs.pop_bits( );
+			(void)bs.pop_bits( );
 			bits_needed -= bit_count_v<value_type>;
 		}
+		if( bits_needed > 0 ) {
+			(void)bs.pop_bits( bits_needed );
+		}
 	}
 
 	template<typename BitStream>
-- 
2.43.0


From 3366da46f15dc6d79d700c4e83ba463254b28597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:27 +0000
Subject: [PATCH 262/267] fix: skip_until with a bit count compares that many
 bits

---
 include/daw/daw_bit_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_stream.h b/include/daw/daw_bit_stream.h
index 8eceb05..99d36e8 100644
--- a/include/daw/daw_bit_stream.h
+++ b/include/daw/daw_bit_stream.h
@@ -132,9 +132,9 @@ namespace daw {
 		daw::exception::dbg_throw_on_true( bit_count < 1,
 		                                   "Attempt to pop less than 1 bits" );
 
-		auto cur_val = pop_value<TestValue>( bs );
+		auto cur_val = pop_value<TestValue>( bs, bit_count );
 		while( bs and cur_val != v ) {
-			cur_val = pop_value<TestValue>( bs );
+			cur_val = pop_value<TestValue>( bs, bit_count );
 		}
 		daw::exception::dbg_throw_on_true( cur_val != v,
 		                                   "Not enough data in stream" );
-- 
2.43.0


From 56f633b7aa141ca90e21e977237b01af10dd4201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 263/267] fix: capacity and full of a nibble queue could not be
 called at run time

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 9b4dbd4..d1b4443 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -155,7 +155,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return basic_bit_queue<queue_type, value_type>::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 04bceb283298b6278abda5d53fee788674828a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:06 +0000
Subject: [PATCH 264/267] fix: a bucket of one item in a perfect hash table
 took a second slot

---
 include/daw/daw_min_perfect_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index e5a9d0e..c095999 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -278,6 +278,7 @@ namespace daw {
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
+				return;
 			}
 
 			for( salt_type salt = 1;; ++salt ) {
-- 
2.43.0


From 9b49f195e670c0610aa3bcdcb371ae74f21db9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:06 +0000
Subject: [PATCH 265/267] fix: perfect hash table from iterators that are not
 pointers

---
 include/daw/daw_min_perfect_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index c095999..dee1737 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -286,7 +286,7 @@ namespace daw {
 
 				auto const success = daw::algorithm::all_of(
 				  bucket.items.begin( ), bucket.items.end( ),
-				  [&]( auto const *const item ) -> bool {
+				  [&]( auto const &item ) -> bool {
 					  hash_result const slot_wanted =
 					    scale_hash( call_hash( item->first, salt ) );
 					  if( slots_claimed[slot_wanted] or
-- 
2.43.0


From ba4d55360fbe09c799a8e2aec384419d10a8262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:06 +0000
Subject: [PATCH 266/267] fix: a perfect hash table found a default constructed
 key it does not have

---
 include/daw/daw_min_perfect_hash.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index dee1737..aa60a54 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -173,6 +173,11 @@ namespace daw {
 				           return lhs.items.size( ) > rhs.items.size( );
 			           } );
 
+			// A slot that stays unused must not match a default constructed key
+			for( auto &key : m_keys ) {
+				key = first->first;
+			}
+
 			daw::array<bool, m_data_size> slots_claimed{ };
 
 			daw::algorithm::find_if( buckets.cbegin( ), buckets.cend( ),
-- 
2.43.0


From e438af4ff1cea147fdac887ad4aa248f9688c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:06 +0000
Subject: [PATCH 267/267] fix: keys with hashes equal modulo the size of a
 perfect hash table never separated

---
 include/daw/daw_min_perfect_hash.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index aa60a54..0229b34 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -106,10 +106,14 @@ namespace daw {
 		[[nodiscard]] static constexpr hash_result
 		hash_combine( hash_result seed, hash_result hash ) noexcept {
 
-			uintmax_t const s = seed + 1;
-			uintmax_t const h = hash;
-			return static_cast<hash_result>(
-			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) ) );
+			// Every bit of the result has to depend on every bit of hash, the result
+			// is scaled to a power of two
+			uintmax_t h = static_cast<uintmax_t>( hash ) +
+			              ( static_cast<uintmax_t>( seed ) + 1U ) *
+			                0x9e37'79b9'7f4a'7c15ULL;
+			h = ( h ^ ( h >> 30U ) ) * 0xbf58'476d'1ce4'e5b9ULL;
+			h = ( h ^ ( h >> 27U ) ) * 0x94d0'49bb'1331'11ebULL;
+			return static_cast<hash_result>( h ^ ( h >> 31U ) );
 		}
 	} // namespace mph_impl
 
@@ -164,7 +168,8 @@ namespace daw {
 			                      } );
 
 			for( auto it = first; it != last; ++it ) {
-				auto const bucket = scale_hash<m_num_buckets>( call_hash( it->first ) );
+				auto const bucket =
+				  scale_hash<m_num_buckets>( call_hash( it->first, 0 ) );
 				buckets[bucket].items.push_back( it );
 			}
 
@@ -319,7 +324,8 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type find_data_index( Key const &key ) const {
 			size_type const hash = call_hash( key );
-			auto const salt = m_salts[scale_hash<m_num_buckets>( hash )];
+			auto const salt = m_salts[scale_hash<m_num_buckets>(
+			  mph_impl::hash_combine<hash_result>( 0, hash ) )];
 
 			if( salt < 0 ) {
 				return static_cast<size_type>( ( -salt ) - 1 );
-- 
2.43.0


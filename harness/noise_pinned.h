/* The noise functions every user of this version relies on; later versions may add to the list in normalize_hash.gperf but not silently drop from it. */
static const struct noise_p { const char *name; const char *files[8]; } noise_pinned[] = {
{ "may_core_dump", { "os_unix.c", 0 } },
{ "mch_exit", { "os_unix.c", 0 } },
{ "os::abort", { "os_linux.cpp", 0 } },
{ "VMError::report_and_die", { "vmError.cpp", 0 } },
{ "JVM_handle_linux_signal", { "os_linux_x86.cpp", 0 } },
{ "gerror_to_dbus_error_message", { "dbus-gobject.c", 0 } },
{ "dbus_g_method_return_error", { "dbus-gobject.c", 0 } },
{ "message_queue_dispatch", { "dbus-gmain.c", 0 } },
{ "_dbus_abort", { "dbus-sysdeps.c", "libdbus", 0 } },
{ "dbus_connection_dispatch", { "dbus-connection.c", "libdbus", 0 } },
{ "gdk_x_error", { "gdkmain-x11.c", 0 } },
{ "gdk_threads_dispatch", { "gdk.c", 0 } },
{ "gdk_event_dispatch", { "gdkevents-x11.c", "gdkevents.c", 0 } },
{ "gdk_event_source_dispatch", { "gdkeventsource.c", 0 } },
{ "_gdk_x11_display_error_event", { "gdkdisplay-x11.c", "libgdk", 0 } },
{ "g_log", { "gmessages.c", "libglib", 0 } },
{ "g_logv", { "gmessages.c", "libglib", 0 } },
{ "g_assertion_message", { "gtestutils.c", "libglib", 0 } },
{ "g_assertion_message_expr", { "gtestutils.c", "libglib", 0 } },
{ "g_closure_invoke", { "gclosure.c", "libgobject", 0 } },
{ "g_free", { "gmem.c", "libglib", 0 } },
{ "g_type_class_meta_marshal", { "gclosure.c", "libglib", 0 } },
{ "g_signal_emit_valist", { "gsignal.c", "libgobject", 0 } },
{ "signal_emit_unlocked_R", { "gsignal.c", "libgobject", 0 } },
{ "g_signal_emit", { "gsignal.c", "libgobject", 0 } },
{ "g_idle_dispatch", { "gmain.c", "gutf8.c", 0 } },
{ "g_object_dispatch_properties_changed", { "gobject.c", "libgobject", 0 } },
{ "g_object_notify_dispatcher", { "gobject.c", "libgobject", 0 } },
{ "g_object_unref", { "gobject.c", "libgobject", 0 } },
{ "g_object_run_dispose", { "gobject.c", "libgobject", 0 } },
{ "g_object_new", { "gobject.c", "libgobject", 0 } },
{ "g_object_newv", { "gobject.c", "libgobject", 0 } },
{ "g_main_context_dispatch", { "gmain.c", "libglib", 0 } },
{ "g_main_context_iterate", { "gmain.c", "libglib", 0 } },
{ "g_main_dispatch", { "gmain.c", "libglib", 0 } },
{ "g_main_loop_run", { "gmain.c", "libglib", 0 } },
{ "g_timeout_dispatch", { "gmain.c", "libglib", 0 } },
{ "g_thread_pool_thread_proxy", { "gthreadpool.c", "libglib", 0 } },
{ "g_thread_create_proxy", { "gthread.c", "libglib", 0 } },
{ "g_cclosure_marshal_VOID__BOXED", { "gmarshal.c", "libgobject", 0 } },
{ "g_cclosure_marshal_VOID__VOID", { "gclosure.c", "gmarshal.c", "libgobject", 0 } },
{ "g_object_notify", { "gobject.c", "libgobject", 0 } },
{ "Glib::exception_handlers_invoke()", { "libglibmm", 0 } },
{ "g_signal_handlers_destroy", { "gsignal.c", "libgobject", 0 } },
{ "g_vasprintf", { "gprintf.c", "libglib", 0 } },
{ "g_strdup_vprintf", { "libglib", 0 } },
{ "g_strdup_printf", { "libglib", 0 } },
{ "g_print", { "libglib", 0 } },
{ "invalid_closure_notify", { "gsignal.c", "libgobject", 0 } },
{ "smc_tree_abort", { "gslice.c", "libglib", 0 } },
{ "g_thread_abort", { "libglib", 0 } },
{ "_g_log_abort", { "gmessages.c", "libglib", 0 } },
{ "g_log_default_handler", { "gmessages.c", "libglib", 0 } },
{ "g_log_writer_default", { "gmessages.c", "libglib", 0 } },
{ "g_log_structured_array", { "gmessages.c", "libglib", 0 } },
{ "g_log_structured", { "gmessages.c", "libglib", 0 } },
{ "default_log_handler", { "main.c", 0 } },
{ "g_signal_emit_by_name", { "gsignal.c", "libgobject", 0 } },
{ "__gnu_cxx::__verbose_terminate_handler", { "vterminate.cc", 0 } },
{ "__cxxabiv1::__terminate", { "eh_terminate.cc", 0 } },
{ "std::terminate", { "eh_terminate.cc", 0 } },
{ "__cxxabiv1::__cxa_throw", { "eh_throw.cc", 0 } },
{ "__cxxabiv1::__cxa_rethrow", { "eh_throw.cc", 0 } },
{ "__verbose_terminate_handler", { "vterminate.cc", 0 } },
{ "__cxxabiv1::__cxa_pure_virtual", { "pure.cc", 0 } },
{ "__kernel_vsyscall", { "", 0 } },
{ "_XReply", { "xcb_io.c", 0 } },
{ "_XError", { "XlibInt.c", 0 } },
{ "XSync", { "Sync.c", 0 } },
{ "process_responses", { "xcb_io.c", 0 } },
{ "OsSigHandler", { "osinit.c", 0 } },
{ "FatalError", { "log.c", 0 } },
{ "AbortServer", { "log.c", 0 } },
{ "AbortDDX", { "xf86Init.c", 0 } },
{ "ddxGiveUp", { "xf86Init.c", 0 } },
{ "OsAbort", { "utils.c", 0 } },
{ "handle_error", { "xcb_io.c", "libX11", 0 } },
{ "_XIOError", { "XlibInt.c", "libX11", 0 } },
{ "_XEventsQueued", { "xcb_io.c", "libX11", 0 } },
{ "handle_response", { "xcb_io.c", "libX11", 0 } },
{ "_start", { "", 0 } },
{ "__libc_start_main", { "libc", 0 } },
{ "clone", { "clone.S", "libc", 0 } },
{ "poll", { "libc", 0 } },
{ "_IO_new_fclose", { "iofclose.c", "libc", 0 } },
{ "_IO_vfprintf_internal", { "vfprintf.c", "libc", 0 } },
{ "_IO_default_xsputn", { "genops.c", "libc", 0 } },
{ "_IO_wdefault_xsputn", { "wgenops.c", "libc", 0 } },
{ "__libc_message", { "libc_fatal.c", "libc", 0 } },
{ "start_thread", { "pthread_create.c", "libpthread", 0 } },
{ "assert_cursor", { "intel_display.c", 0 } },
{ "assert_device_not_suspended", { "intel_uncore.c", 0 } },
{ "assert_pipe", { "intel_display.c", 0 } },
{ "assert_plane", { "intel_display.c", 0 } },
{ "assert_transcoder_disabled", { "intel_display.c", 0 } },
{ "btrfs_assert_delayed_root_empty", { "delayed-inode.c", "btrfs", 0 } },
{ "_cogl_set_error", { "cogl-error.c", "libcogl", 0 } },
{ "defaultCrashHandler", { "kcrash.cpp", "libKF5Crash", 0 } },
{ "_dl_signal_error", { "dl-error.c", "ld-linux", 0 } },
{ "error_dialog_response_cb", { "", 0 } },
{ "do_warn", { "_warnings.c", "libpython", 0 } },
{ "QMessageLogger::fatal(char const*, ...) const", { "", 0 } },
{ "nsProfileLock::FatalSignalHandler(int, siginfo_t*, void*)", { "", 0 } },
{ "qt_message_output", { "qglobal.cpp", "libQtCore", 0 } },
{ "qt_message_output(QtMsgType, char const*)", { "", 0 } },
{ "signalHandler(int, siginfo_t*, void*)", { "", 0 } },
{ "FatalSignalHandler", { "nsProfileLock.cpp", "libxul", 0 } },
{ "Foam::error::abort()", { "", 0 } },
{ "JS_AbortIfWrongThread", { "libmozjs", 0 } },
{ "Crash::defaultCrashHandler(int)", { "libkdeui", "libKF5Crash", 0 } },
{ "Py_FatalError", { "pythonrun.c", "libpython", 0 } },
{ "__btrfs_abort_transaction", { "btrfs", 0 } },
{ "assert_pch_hdmi_disabled", { "", 0 } },
{ "assert_pll", { "", 0 } },
{ "core::system::abort()", { "", 0 } },
{ "ddd_assert_fail", { "assert.C", 0 } },
{ "debug_dma_assert_idle", { "", 0 } },
{ "error_handler", { "", 0 } },
{ "fatal_error_signal", { "", 0 } },
{ "fatal_handler", { "signal.c", "libfreerdp", 0 } },
{ "gpf_notice", { "", 0 } },
{ "log", { "", 0 } },
{ "_log", { "", 0 } },
{ "log_assert_failed", { "", 0 } },
{ "mozalloc_abort", { "mozalloc_abort.cpp", "libmozalloc", 0 } },
{ "mozalloc_abort(char const*)", { "libmozalloc", "content-container", "plugin-container", 0 } },
{ "note_interrupt", { "spurious.c", "vmlinux", 0 } },
{ "print_bad_pte", { "memory.c", "vmlinux", 0 } },
{ "print_oops_end_marker", { "panic.c", "vmlinux", 0 } },
{ "printk", { "printk.c", "vmlinux", 0 } },
{ "qupzilla_signal_handler", { "main.cpp", "qupzilla", 0 } },
{ "rb_bug", { "error.c", "libruby", 0 } },
{ "sighandler", { "", 0 } },
{ "signalHandler(int)", { "", 0 } },
{ "signal_abort", { "signal.c", 0 } },
{ "signal_handler", { "", 0 } },
{ "sys_abort", { "error.c", "libgfortran", 0 } },
{ "terminate_due_to_signal", { "emacs.c", "emacs", 0 } },
{ "wl_log", { "wayland-util.c", 0 } },
{ "display_protocol_error", { "wayland-client.c", 0 } },
{ "display_handle_error", { "wayland-client.c", 0 } },
{ "x_io_error", { "libmutter", "meta-xwayland.c", 0 } },
{ "__ioremap_calle", { "ioremap.c", 0 } },
{ "ioremap_nocache", { "ioremap.c", 0 } },
{ "wpa_msg", { "wpa_debug.c", 0 } },
{ "js::gc::FinalizeArenas(js::FreeOp*, js::gc::ArenaHeader**, js::gc::ArenaList&, js::gc::AllocKind, js::SliceBudget&)", { "", 0 } },
{ "js::Shape::finalize(js::FreeOp*)", { "", 0 } },
{ "WTF::StringImpl::endsWith(char const*, unsigned int, bool) const", { "", 0 } },
{ "mozilla::plugins::child::_invokedefault(_NPP*, NPObject*, _NPVariant const*, unsigned int, _NPVariant*)", { "", 0 } },
{ "xitk_signal_handler", { "xitk.c", "xine", 0 } },
{ "dump_gjs_stack_on_signal_handler", { "main.c", 0 } },
{ "meta_run", { "libmutter", "main.c", 0 } },
{ 0, { 0 } } };
#define PINNED_N 152

// C ABI shim: lets the Rust crate openworkers-v8 146.8 (bindings for V8 14.6)
// run on the V8 12.4 inside /usr/bin/node. Function bodies mostly follow
// openworkers-v8's src/binding.cc (MIT, the Deno authors); only the functions
// that /repo's crate links are here.
#include <node/node.h>
#include <node/v8.h>
#include <node/v8-platform.h>
#include <node/v8-profiler.h>
#include <cassert>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <atomic>
#include <algorithm>
#include <pthread.h>

namespace support {
template <std::size_t Len, std::size_t Align>
struct aligned_storage { struct type { alignas(Align) unsigned char data[Len]; }; };
template <class T> using uninit_t = typename aligned_storage<sizeof(T), alignof(T)>::type;
template <class T, class... Args>
class construct_in_place_helper {
 public:
  construct_in_place_helper(uninit_t<T>* buf, Args... args) : inner_(std::forward<Args>(args)...) {}
 private:
  T inner_;
};
template <class T, class... Args>
void construct_in_place(uninit_t<T>* buf, Args... args) {
  new (buf) construct_in_place_helper<T, Args...>(buf, std::forward<Args>(args)...);
}
template <class P>
struct make_pod {
  template <class V> inline make_pod(V&& value) : pod_(helper<V>(std::move(value))) {}
  template <class V> inline make_pod(const V& value) : pod_(helper<V>(value)) {}
  inline operator P() { return pod_; }
 private:
  P pod_;
  template <class V>
  union helper {
    static_assert(sizeof(V) == sizeof(P), "");
    inline helper(V&& value) : value_(std::move(value)) {}
    inline helper(const V& value) : value_(value) {}
    inline ~helper() {}
    inline operator P() { P result; memcpy((void*)&result, (void*)this, sizeof result); return result; }
   private:
    V value_;
  };
};
enum class MaybeBool { JustFalse = 0, JustTrue = 1, Nothing = 2 };
inline static MaybeBool maybe_to_maybe_bool(v8::Maybe<bool> maybe) {
  if (maybe.IsNothing()) return MaybeBool::Nothing;
  return maybe.FromJust() ? MaybeBool::JustTrue : MaybeBool::JustFalse;
}
template <class T> inline static T* local_to_ptr(v8::Local<T> local) { return *local; }
template <class T> inline static const v8::Local<T> ptr_to_local(const T* ptr) {
  static_assert(sizeof(v8::Local<T>) == sizeof(T*), "");
  return *reinterpret_cast<const v8::Local<T>*>(&ptr);
}
template <class T> inline static v8::Local<T>* const_ptr_array_to_local_array(const T* const ptr_array[]) {
  return reinterpret_cast<v8::Local<T>*>(const_cast<T**>(ptr_array));
}
template <class T> inline static T* maybe_local_to_ptr(v8::MaybeLocal<T> local) { return *local.FromMaybe(v8::Local<T>()); }
template <class T> inline static const v8::MaybeLocal<T> ptr_to_maybe_local(const T* ptr) {
  return *reinterpret_cast<const v8::MaybeLocal<T>*>(&ptr);
}
template <class T> inline static v8::Global<T> ptr_to_global(const T* ptr) {
  v8::Global<T> global;
  std::swap(ptr, *reinterpret_cast<const T**>(&global));
  return global;
}
struct two_pointers_t { void* a; void* b; };
}  // namespace support
using namespace support;

static_assert(sizeof(v8::HandleScope) == 3 * sizeof(size_t), "");
static_assert(sizeof(v8::TryCatch) == 6 * sizeof(size_t), "");
static_assert(sizeof(v8::Locker) == 2 * sizeof(size_t), "");
static_assert(sizeof(v8::ReturnValue<v8::Value>) == sizeof(size_t), "");
static_assert(sizeof(v8::ScriptCompiler::CachedData) == 24, "");

// ---------------------------------------------------------------- platform
namespace {
class Runner;
class Delegate : public node::IsolatePlatformDelegate {
 public:
  Delegate();
  std::shared_ptr<v8::TaskRunner> GetForegroundTaskRunner() override { return runner_; }
  bool IdleTasksEnabled() override { return false; }
  std::shared_ptr<v8::TaskRunner> runner_;
};
class Runner : public v8::TaskRunner {
 public:
  void PostTask(std::unique_ptr<v8::Task> t) override { Push(std::move(t)); }
  void PostNonNestableTask(std::unique_ptr<v8::Task> t) override { Push(std::move(t)); }
  void PostDelayedTask(std::unique_ptr<v8::Task>, double) override {}
  void PostNonNestableDelayedTask(std::unique_ptr<v8::Task>, double) override {}
  void PostIdleTask(std::unique_ptr<v8::IdleTask>) override {}
  bool IdleTasksEnabled() override { return false; }
  bool NonNestableTasksEnabled() const override { return true; }
  bool NonNestableDelayedTasksEnabled() const override { return true; }
  void Push(std::unique_ptr<v8::Task> t) { std::lock_guard<std::mutex> g(m_); if (!dead_) q_.push_back(std::move(t)); }
  bool RunOne() {
    std::unique_ptr<v8::Task> t;
    { std::lock_guard<std::mutex> g(m_); if (q_.empty()) return false; t = std::move(q_.front()); q_.pop_front(); }
    t->Run();
    return true;
  }
  void Shutdown() { std::deque<std::unique_ptr<v8::Task>> q; { std::lock_guard<std::mutex> g(m_); dead_ = true; q.swap(q_); } }
 private:
  std::mutex m_;
  std::deque<std::unique_ptr<v8::Task>> q_;
  bool dead_ = false;
};
Delegate::Delegate() : runner_(std::make_shared<Runner>()) {}
std::mutex g_mutex;
std::map<v8::Isolate*, Delegate*> g_delegates;
node::MultiIsolatePlatform* g_platform = nullptr;
}  // namespace

extern "C" {
// Called by the loader on node's main thread, before any isolate is made.
void shim_init_platform() {
  v8::Isolate* iso = v8::Isolate::GetCurrent();
  v8::HandleScope hs(iso);
  node::Environment* env = node::GetCurrentEnvironment(iso->GetCurrentContext());
  g_platform = node::GetMultiIsolatePlatform(env);
}

struct RawConstraints { size_t code_range, max_old, max_young, init_old, init_young; uint64_t phys; uint32_t* stack_limit; };
struct RawCreateParams {
  void* code_event_handler;
  RawConstraints constraints;
  const v8::StartupData* snapshot_blob;
  v8::CounterLookupCallback counter_lookup_callback;
  void* create_histogram_callback;
  void* add_histogram_sample_callback;
  v8::ArrayBuffer::Allocator* array_buffer_allocator;
  std::shared_ptr<v8::ArrayBuffer::Allocator> array_buffer_allocator_shared;
  const intptr_t* external_references;
  bool allow_atomics_wait;
  void* fatal_error_handler;
  void* oom_error_handler;
  void* cpp_heap;
};
void v8__Isolate__CreateParams__CONSTRUCT(RawCreateParams* buf) {
  memset((void*)buf, 0, sizeof *buf);
  new (buf) RawCreateParams();
  buf->allow_atomics_wait = true;
}
size_t v8__Isolate__CreateParams__SIZEOF() { return sizeof(RawCreateParams); }
v8::Isolate* v8__Isolate__New(RawCreateParams& p) {
  v8::Isolate::CreateParams q;
  q.constraints.set_code_range_size_in_bytes(p.constraints.code_range);
  q.constraints.set_max_old_generation_size_in_bytes(p.constraints.max_old);
  q.constraints.set_max_young_generation_size_in_bytes(p.constraints.max_young);
  q.constraints.set_initial_old_generation_size_in_bytes(p.constraints.init_old);
  q.constraints.set_initial_young_generation_size_in_bytes(p.constraints.init_young);
  q.constraints.set_stack_limit(p.constraints.stack_limit);
  q.snapshot_blob = p.snapshot_blob && p.snapshot_blob->raw_size > 0 ? p.snapshot_blob : nullptr;
  q.array_buffer_allocator = p.array_buffer_allocator;
  q.array_buffer_allocator_shared = p.array_buffer_allocator_shared;
  q.external_references = p.external_references;
  q.allow_atomics_wait = p.allow_atomics_wait;
  v8::Isolate* iso = v8::Isolate::Allocate();
  Delegate* d = new Delegate();
  { std::lock_guard<std::mutex> g(g_mutex); g_delegates[iso] = d; }
  g_platform->RegisterIsolate(iso, d);
  v8::Isolate::Initialize(iso, q);
  // V8 14's Isolate::New takes over the allocator handed in by shared_ptr.
  p.array_buffer_allocator_shared.reset();
  return iso;
}
void v8__Isolate__Dispose(v8::Isolate* isolate) {
  Delegate* d = nullptr;
  { std::lock_guard<std::mutex> g(g_mutex); auto it = g_delegates.find(isolate); if (it != g_delegates.end()) { d = it->second; g_delegates.erase(it); } }
  if (d) static_cast<Runner*>(d->runner_.get())->Shutdown();
  g_platform->UnregisterIsolate(isolate);
  isolate->Dispose();
  delete d;
}
static bool pump(v8::Isolate* isolate) {
  std::shared_ptr<v8::TaskRunner> r;
  { std::lock_guard<std::mutex> g(g_mutex); auto it = g_delegates.find(isolate); if (it == g_delegates.end()) return false; r = it->second->runner_; }
  return static_cast<Runner*>(r.get())->RunOne();
}
// The platform is node's; the Rust side only gets an opaque token.
struct TokenPlatform { virtual ~TokenPlatform() {} };
v8::Platform* v8__Platform__NewDefaultPlatform(int, bool) { return (v8::Platform*)new TokenPlatform(); }
void v8__Platform__DELETE(v8::Platform* self) { delete (TokenPlatform*)self; }
void v8__Platform__NotifyIsolateShutdown(v8::Platform*, v8::Isolate*) {}
bool v8__Platform__PumpMessageLoop(v8::Platform*, v8::Isolate* isolate, bool) { return pump(isolate); }
void v8__V8__Initialize() {}
void v8__V8__InitializePlatform(v8::Platform*) {}
void v8__V8__SetFlagsFromString(const char*, size_t) {}
void udata_setCommonData_77(const void*, int32_t* err) { if (err) *err = 0; }

struct RustAllocatorVtable {
  void* (*allocate)(void* handle, size_t length);
  void* (*allocate_uninitialized)(void* handle, size_t length);
  void (*free)(void* handle, void* data, size_t length);
  void (*drop)(void* handle);
};
class RustAllocator : public v8::ArrayBuffer::Allocator {
  void* handle; const RustAllocatorVtable* vtable;
 public:
  RustAllocator(void* h, const RustAllocatorVtable* v) : handle(h), vtable(v) {}
  RustAllocator(const RustAllocator&) = delete;
  virtual ~RustAllocator() { vtable->drop(handle); }
  void* Allocate(size_t n) final { return vtable->allocate(handle, n); }
  void* AllocateUninitialized(size_t n) final { return vtable->allocate_uninitialized(handle, n); }
  void Free(void* p, size_t n) final { vtable->free(handle, p, n); }
};
// ---- recording of the calls the checks observe
struct ShimRec { int64_t kind; void* p; int64_t v; int64_t tid; };
static std::mutex g_log_mutex; static std::vector<ShimRec> g_log; static std::atomic<bool> g_log_on{false};
static std::atomic<v8::Isolate*> g_log_isolate{nullptr};
static std::atomic<bool> g_no_terminate{false};
static void shim_rec(int64_t kind, const void* p, int64_t v) {
  if (!g_log_on.load()) return;
  std::lock_guard<std::mutex> g(g_log_mutex);
  g_log.push_back({kind, (void*)p, v, (int64_t)pthread_self()});
}
void shim_log_start(v8::Isolate* watch, bool no_terminate) { { std::lock_guard<std::mutex> g(g_log_mutex); g_log.clear(); } g_log_isolate = watch; g_no_terminate = no_terminate; g_log_on = true; }
void shim_log_stop() { g_log_on = false; g_no_terminate = false; g_log_isolate = nullptr; }
size_t shim_log_take(ShimRec* out, size_t cap) {
  std::lock_guard<std::mutex> g(g_log_mutex);
  size_t n = std::min(cap, g_log.size());
  for (size_t i = 0; i < n; i++) out[i] = g_log[i];
  g_log.erase(g_log.begin(), g_log.begin() + n);
  return n;
}
void* shim_allocator_allocate(v8::ArrayBuffer::Allocator* a, size_t n) { return a->Allocate(n); }
void* shim_allocator_allocate_uninit(v8::ArrayBuffer::Allocator* a, size_t n) { return a->AllocateUninitialized(n); }
void shim_allocator_free(v8::ArrayBuffer::Allocator* a, void* p, size_t n) { a->Free(p, n); }
void shim_allocator_delete(v8::ArrayBuffer::Allocator* a) { delete a; }
v8::ArrayBuffer::Allocator* v8__ArrayBuffer__Allocator__NewRustAllocator(void* handle, const RustAllocatorVtable* vtable) { return new RustAllocator(handle, vtable); }

bool v8__BackingStore__IsResizableByUserJavaScript(const v8::BackingStore& self) { return self.IsResizableByUserJavaScript(); }

const v8::Context* v8__Context__New(v8::Isolate* isolate, const v8::ObjectTemplate* templ, const v8::Value* global_object, v8::MicrotaskQueue* mq) {
  return local_to_ptr(v8::Context::New(isolate, nullptr, ptr_to_maybe_local(templ), ptr_to_maybe_local(global_object), v8::DeserializeInternalFieldsCallback(), mq));
}
const v8::Context* v8__Context__FromSnapshot(v8::Isolate* isolate, size_t index, v8::Value* global_object, v8::MicrotaskQueue* mq) {
  return maybe_local_to_ptr(v8::Context::FromSnapshot(isolate, index, v8::DeserializeInternalFieldsCallback(), nullptr, ptr_to_maybe_local(global_object), mq));
}
const v8::FunctionTemplate* v8__FunctionTemplate__New(v8::Isolate* isolate, v8::FunctionCallback callback, const v8::Value* data_or_null, const v8::Signature* sig, int length, v8::ConstructorBehavior cb, v8::SideEffectType se, const void*, size_t) {
  return local_to_ptr(v8::FunctionTemplate::New(isolate, callback, ptr_to_local(data_or_null), ptr_to_local(sig), length, cb, se));
}
int v8__String__Utf8Length(const v8::String& self, v8::Isolate* isolate) { return self.Utf8Length(isolate); }
void v8__String__WriteOneByte_v2(const v8::String& self, v8::Isolate* isolate, uint32_t offset, uint32_t length, uint8_t* buffer, int flags) {
  self.WriteOneByte(isolate, buffer, offset, length, (flags & 1) ? 0 : v8::String::NO_NULL_TERMINATION);
}
void v8__String__Write_v2(const v8::String& self, v8::Isolate* isolate, uint32_t offset, uint32_t length, uint16_t* buffer, int flags) {
  self.Write(isolate, buffer, offset, length, (flags & 1) ? 0 : v8::String::NO_NULL_TERMINATION);
}
size_t v8__String__WriteUtf8_v2(const v8::String& self, v8::Isolate* isolate, char* buffer, size_t capacity, int flags, size_t* processed) {
  int n = 0;
  int o = (flags & 1) ? 0 : v8::String::NO_NULL_TERMINATION;
  if (flags & 2) o |= v8::String::REPLACE_INVALID_UTF8;
  int r = self.WriteUtf8(isolate, buffer, (int)capacity, &n, o);
  if (processed) *processed = n;
  return r;
}
// Rust reserves 14 words for V8 14's Source; the real one lives on the heap.
struct SourceBox { v8::ScriptCompiler::Source* s; };
void v8__ScriptCompiler__Source__CONSTRUCT(SourceBox* buf, const v8::String& str, const v8::ScriptOrigin* origin, v8::ScriptCompiler::CachedData* cached) {
  if (origin) buf->s = new v8::ScriptCompiler::Source(ptr_to_local(&str), *origin, cached);
  else buf->s = new v8::ScriptCompiler::Source(ptr_to_local(&str), cached);
}
void v8__ScriptCompiler__Source__DESTRUCT(SourceBox* self) { delete self->s; }
const v8::ScriptCompiler::CachedData* v8__ScriptCompiler__Source__GetCachedData(const SourceBox* b) { return b->s->GetCachedData(); }
const v8::Script* v8__ScriptCompiler__Compile(const v8::Context* context, SourceBox* b, v8::ScriptCompiler::CompileOptions options, v8::ScriptCompiler::NoCacheReason r) {
  return maybe_local_to_ptr(v8::ScriptCompiler::Compile(ptr_to_local(context), b->s, options, r));
}
const v8::UnboundScript* v8__ScriptCompiler__CompileUnboundScript(v8::Isolate* isolate, SourceBox* b, v8::ScriptCompiler::CompileOptions options, v8::ScriptCompiler::NoCacheReason r) {
  return maybe_local_to_ptr(v8::ScriptCompiler::CompileUnboundScript(isolate, b->s, options, r));
}
const v8::UnboundScript* v8__Script__GetUnboundScript(const v8::Script& s) { return local_to_ptr(ptr_to_local(&s)->GetUnboundScript()); }
v8::ScriptCompiler::CachedData* v8__UnboundScript__CreateCodeCache(const v8::UnboundScript* s) { return v8::ScriptCompiler::CreateCodeCache(ptr_to_local(s)); }
const v8::Uint8Array* v8__Uint8Array__New(const v8::ArrayBuffer& buf, size_t off, size_t len) { return local_to_ptr(v8::Uint8Array::New(ptr_to_local(&buf), off, len)); }
void v8__SnapshotCreator__DESTRUCT(void*) { abort(); }
void v8_inspector__StringBuffer__DELETE(void*) {}

two_pointers_t
std__shared_ptr__v8__ArrayBuffer__Allocator__CONVERT__std__unique_ptr(
    v8::ArrayBuffer::Allocator* unique_ptr) {
  return make_pod<two_pointers_t>(
      std::shared_ptr<v8::ArrayBuffer::Allocator>(unique_ptr));
}

v8::ArrayBuffer::Allocator* std__shared_ptr__v8__ArrayBuffer__Allocator__get(
    const std::shared_ptr<v8::ArrayBuffer::Allocator>& ptr) {
  return ptr.get();
}

void std__shared_ptr__v8__ArrayBuffer__Allocator__reset(
    std::shared_ptr<v8::ArrayBuffer::Allocator>* ptr) {
  ptr->reset();
}

two_pointers_t std__shared_ptr__v8__BackingStore__CONVERT__std__unique_ptr(
    v8::BackingStore* unique_ptr) {
  return make_pod<two_pointers_t>(
      std::shared_ptr<v8::BackingStore>(unique_ptr));
}

v8::BackingStore* std__shared_ptr__v8__BackingStore__get(
    const std::shared_ptr<v8::BackingStore>& ptr) {
  return ptr.get();
}

void std__shared_ptr__v8__BackingStore__reset(
    std::shared_ptr<v8::BackingStore>* ptr) {
  ptr->reset();
}

two_pointers_t std__shared_ptr__v8__Platform__CONVERT__std__unique_ptr(
    v8::Platform* unique_ptr) {
  return make_pod<two_pointers_t>(std::shared_ptr<v8::Platform>(unique_ptr));
}

two_pointers_t std__shared_ptr__v8__Platform__COPY(
    const std::shared_ptr<v8::Platform>& ptr) {
  return make_pod<two_pointers_t>(ptr);
}

v8::Platform* std__shared_ptr__v8__Platform__get(
    const std::shared_ptr<v8::Platform>& ptr) {
  return ptr.get();
}

void std__shared_ptr__v8__Platform__reset(std::shared_ptr<v8::Platform>* ptr) {
  ptr->reset();
}

const v8::ArrayBuffer* v8__ArrayBufferView__Buffer(
    const v8::ArrayBufferView& self) {
  return local_to_ptr(ptr_to_local(&self)->Buffer());
}

size_t v8__ArrayBufferView__ByteLength(const v8::ArrayBufferView& self) {
  return ptr_to_local(&self)->ByteLength();
}

size_t v8__ArrayBufferView__ByteOffset(const v8::ArrayBufferView& self) {
  return ptr_to_local(&self)->ByteOffset();
}

size_t v8__ArrayBufferView__CopyContents(const v8::ArrayBufferView& self,
                                         void* dest, int byte_length) {
  return ptr_to_local(&self)->CopyContents(dest, byte_length);
}

void v8__ArrayBuffer__Allocator__DELETE(v8::ArrayBuffer::Allocator* self) {
  delete self;
}

v8::ArrayBuffer::Allocator* v8__ArrayBuffer__Allocator__NewDefaultAllocator() {
  return v8::ArrayBuffer::Allocator::NewDefaultAllocator();
}

size_t v8__ArrayBuffer__ByteLength(const v8::ArrayBuffer& self) {
  return self.ByteLength();
}

MaybeBool v8__ArrayBuffer__Detach(const v8::ArrayBuffer& self,
                                  const v8::Value* key) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->Detach(ptr_to_local(key)));
}

two_pointers_t v8__ArrayBuffer__GetBackingStore(const v8::ArrayBuffer& self) {
  return make_pod<two_pointers_t>(ptr_to_local(&self)->GetBackingStore());
}

bool v8__ArrayBuffer__IsDetachable(const v8::ArrayBuffer& self) {
  return ptr_to_local(&self)->IsDetachable();
}

v8::BackingStore* v8__ArrayBuffer__NewBackingStore__with_data(
    void* data, size_t byte_length, v8::BackingStore::DeleterCallback deleter,
    void* deleter_data) {
  std::unique_ptr<v8::BackingStore> u = v8::ArrayBuffer::NewBackingStore(
      data, byte_length, deleter, deleter_data);
  return u.release();
}

const v8::ArrayBuffer* v8__ArrayBuffer__New__with_backing_store(
    v8::Isolate* isolate,
    const std::shared_ptr<v8::BackingStore>& backing_store) {
  return local_to_ptr(v8::ArrayBuffer::New(isolate, backing_store));
}

const v8::ArrayBuffer* v8__ArrayBuffer__New__with_byte_length(
    v8::Isolate* isolate, size_t byte_length) {
  return local_to_ptr(v8::ArrayBuffer::New(isolate, byte_length));
}

uint32_t v8__Array__Length(const v8::Array& self) { return self.Length(); }

const v8::Array* v8__Array__New(v8::Isolate* isolate, int length) {
  return local_to_ptr(v8::Array::New(isolate, length));
}

size_t v8__BackingStore__ByteLength(const v8::BackingStore& self) {
  return self.ByteLength();
}

void v8__BackingStore__DELETE(v8::BackingStore* self) { delete self; }

void* v8__BackingStore__Data(const v8::BackingStore& self) {
  return self.Data();
}

bool v8__BackingStore__IsShared(const v8::BackingStore& self) {
  return self.IsShared();
}

int64_t v8__BigInt__Int64Value(const v8::BigInt& self, bool* lossless) {
  return ptr_to_local(&self)->Int64Value(lossless);
}

const v8::BigInt* v8__BigInt__NewFromUnsigned(v8::Isolate* isolate,
                                              uint64_t value) {
  return local_to_ptr(v8::BigInt::NewFromUnsigned(isolate, value));
}

void v8__BigInt__ToWordsArray(const v8::BigInt& self, int* sign_bit,
                              int* word_count, uint64_t words[]) {
  ptr_to_local(&self)->ToWordsArray(sign_bit, word_count, words);
}

uint64_t v8__BigInt__Uint64Value(const v8::BigInt& self, bool* lossless) {
  return ptr_to_local(&self)->Uint64Value(lossless);
}

int v8__BigInt__WordCount(const v8::BigInt& self) {
  return ptr_to_local(&self)->WordCount();
}

const v8::Boolean* v8__Boolean__New(v8::Isolate* isolate, bool value) {
  return local_to_ptr(v8::Boolean::New(isolate, value));
}

void v8__Context__Enter(const v8::Context& self) {
  ptr_to_local(&self)->Enter();
}

void v8__Context__Exit(const v8::Context& self) { ptr_to_local(&self)->Exit(); }

void* v8__Context__GetAlignedPointerFromEmbedderData(const v8::Context& self,
                                                     int index) {
  return ptr_to_local(&self)->GetAlignedPointerFromEmbedderData(index);
}

uint32_t v8__Context__GetNumberOfEmbedderDataFields(const v8::Context& self) {
  return ptr_to_local(&self)->GetNumberOfEmbedderDataFields();
}

const v8::Object* v8__Context__Global(const v8::Context& self) {
  return local_to_ptr(ptr_to_local(&self)->Global());
}

void v8__Context__SetAlignedPointerInEmbedderData(v8::Context& self, int index,
                                                  void* value) {
  ptr_to_local(&self)->SetAlignedPointerInEmbedderData(index, value);
}

const v8::Value* v8__Exception__Error(const v8::String& message) {
  return local_to_ptr(v8::Exception::Error(ptr_to_local(&message)));
}

const v8::Value* v8__Exception__RangeError(const v8::String& message) {
  return local_to_ptr(v8::Exception::RangeError(ptr_to_local(&message)));
}

const v8::Value* v8__Exception__TypeError(const v8::String& message) {
  return local_to_ptr(v8::Exception::TypeError(ptr_to_local(&message)));
}

const v8::External* v8__External__New(v8::Isolate* isolate, void* value) {
  return local_to_ptr(v8::External::New(isolate, value));
}

void* v8__External__Value(const v8::External& self) { return self.Value(); }

const v8::Value* v8__FunctionCallbackInfo__Data(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  return local_to_ptr(self.Data());
}

const v8::Value* v8__FunctionCallbackInfo__Get(
    const v8::FunctionCallbackInfo<v8::Value>& self, int index) {
  return local_to_ptr(self[index]);
}

v8::Isolate* v8__FunctionCallbackInfo__GetIsolate(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  return self.GetIsolate();
}

uintptr_t* v8__FunctionCallbackInfo__GetReturnValue(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  v8::ReturnValue<v8::Value> rv = self.GetReturnValue();
  return *reinterpret_cast<uintptr_t**>(&rv);
}

int v8__FunctionCallbackInfo__Length(
    const v8::FunctionCallbackInfo<v8::Value>& self) {
  return self.Length();
}

const v8::Function* v8__FunctionTemplate__GetFunction(
    const v8::FunctionTemplate& self, const v8::Context& context) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->GetFunction(ptr_to_local(&context)));
}

const v8::Value* v8__Function__Call(const v8::Function& self,
                                    const v8::Context& context,
                                    const v8::Value& recv, int argc,
                                    const v8::Value* const argv[]) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->Call(ptr_to_local(&context), ptr_to_local(&recv),
                                argc, const_ptr_array_to_local_array(argv)));
}

const v8::Function* v8__Function__New(
    const v8::Context& context, v8::FunctionCallback callback,
    const v8::Value* data_or_null, int length,
    v8::ConstructorBehavior constructor_behavior,
    v8::SideEffectType side_effect_type) {
  return maybe_local_to_ptr(v8::Function::New(
      ptr_to_local(&context), callback, ptr_to_local(data_or_null), length,
      constructor_behavior, side_effect_type));
}

const v8::Object* v8__Function__NewInstance(const v8::Function& self,
                                            const v8::Context& context,
                                            int argc,
                                            const v8::Value* const argv[]) {
  return maybe_local_to_ptr(ptr_to_local(&self)->NewInstance(
      ptr_to_local(&context), argc, const_ptr_array_to_local_array(argv)));
}

const v8::Data* v8__Global__New(v8::Isolate* isolate, const v8::Data& other) {
  // We have to use `std::move()` here because v8 disables the copy constructor
  // for class `v8::Global`.
  auto global = v8::Global<v8::Data>(isolate, ptr_to_local(&other));
  return make_pod<v8::Data*>(std::move(global));
}

const v8::Data* v8__Global__NewWeak(
    v8::Isolate* isolate, const v8::Data& other, void* parameter,
    v8::WeakCallbackInfo<void>::Callback callback) {
  auto global = v8::Global<v8::Data>(isolate, ptr_to_local(&other));
  global.SetWeak(parameter, callback, v8::WeakCallbackType::kParameter);
  return make_pod<v8::Data*>(std::move(global));
}

void v8__Global__Reset(const v8::Data* data) {
  if (g_log_on.load()) { auto w = g_log_isolate.load(); shim_rec(1, data, w ? v8::Locker::IsLocked(w) : 0); }
  auto global = ptr_to_global(data);
  global.Reset();
}

void v8__HandleScope__CONSTRUCT(uninit_t<v8::HandleScope>* buf,
                                v8::Isolate* isolate) {
  construct_in_place<v8::HandleScope>(buf, isolate);
}

void v8__HandleScope__DESTRUCT(v8::HandleScope* self) { self->~HandleScope(); }

void v8__Isolate__AddNearHeapLimitCallback(v8::Isolate* isolate,
                                           v8::NearHeapLimitCallback callback,
                                           void* data) {
  isolate->AddNearHeapLimitCallback(callback, data);
}

int64_t v8__Isolate__AdjustAmountOfExternalAllocatedMemory(
    v8::Isolate* isolate, int64_t change_in_bytes) {
  shim_rec(2, isolate, change_in_bytes);
  return isolate->AdjustAmountOfExternalAllocatedMemory(change_in_bytes);
}

void v8__Isolate__CancelTerminateExecution(v8::Isolate* isolate) {
  shim_rec(4, isolate, 0);
  isolate->CancelTerminateExecution();
}

void v8__Isolate__Enter(v8::Isolate* isolate) { isolate->Enter(); }

void v8__Isolate__Exit(v8::Isolate* isolate) { isolate->Exit(); }

v8::Isolate* v8__Isolate__GetCurrent() { return v8::Isolate::GetCurrent(); }

const v8::Context* v8__Isolate__GetCurrentContext(v8::Isolate* isolate) {
  return local_to_ptr(isolate->GetCurrentContext());
}

void* v8__Isolate__GetData(v8::Isolate* isolate, uint32_t slot) {
  return isolate->GetData(slot);
}

uint32_t v8__Isolate__GetNumberOfDataSlots(v8::Isolate* isolate) {
  return isolate->GetNumberOfDataSlots();
}

bool v8__Isolate__IsExecutionTerminating(v8::Isolate* isolate) {
  return isolate->IsExecutionTerminating();
}

void v8__Isolate__PerformMicrotaskCheckpoint(v8::Isolate* isolate) {
  isolate->PerformMicrotaskCheckpoint();
}

void v8__Isolate__SetData(v8::Isolate* isolate, uint32_t slot, void* data) {
  isolate->SetData(slot, data);
}

void v8__Isolate__SetOOMErrorHandler(v8::Isolate* isolate,
                                     v8::OOMErrorCallback callback) {
  isolate->SetOOMErrorHandler(callback);
}

void v8__Isolate__TerminateExecution(v8::Isolate* isolate) {
  shim_rec(3, isolate, 0);
  if (g_no_terminate.load()) return;
  isolate->TerminateExecution();
}

const v8::Value* v8__Isolate__ThrowException(v8::Isolate* isolate,
                                             const v8::Value& exception) {
  return local_to_ptr(isolate->ThrowException(ptr_to_local(&exception)));
}

const v8::Value* v8__JSON__Parse(const v8::Context& context,
                                 const v8::String& json_string) {
  return maybe_local_to_ptr(
      v8::JSON::Parse(ptr_to_local(&context), ptr_to_local(&json_string)));
}

const v8::String* v8__JSON__Stringify(const v8::Context& context,
                                      const v8::Value& json_object) {
  return maybe_local_to_ptr(
      v8::JSON::Stringify(ptr_to_local(&context), ptr_to_local(&json_object)));
}

const v8::Data* v8__Local__New(v8::Isolate* isolate, const v8::Data& other) {
  return local_to_ptr(v8::Local<v8::Data>::New(isolate, ptr_to_local(&other)));
}

void v8__Locker__CONSTRUCT(uninit_t<v8::Locker>* buf, v8::Isolate* isolate) {
  construct_in_place<v8::Locker>(buf, isolate);
}

void v8__Locker__DESTRUCT(v8::Locker* self) { self->~Locker(); }

bool v8__Locker__IsLocked(v8::Isolate* isolate) {
  return v8::Locker::IsLocked(isolate);
}

const v8::Array* v8__Map__As__Array(const v8::Map& self) {
  return local_to_ptr(self.AsArray());
}

int v8__Message__GetLineNumber(const v8::Message& self,
                               const v8::Context& context) {
  v8::Maybe<int> maybe = self.GetLineNumber(ptr_to_local(&context));
  if (maybe.IsJust()) {
    return maybe.ToChecked();
  } else {
    return -1;
  }
}

const v8::String* v8__Message__GetSourceLine(const v8::Message& self,
                                             const v8::Context& context) {
  return maybe_local_to_ptr(self.GetSourceLine(ptr_to_local(&context)));
}

int v8__Message__GetStartColumn(const v8::Message& self) {
  return self.GetStartColumn();
}

const v8::Primitive* v8__Null(v8::Isolate* isolate) {
  return local_to_ptr(v8::Null(isolate));
}

const v8::Number* v8__Number__New(v8::Isolate* isolate, double value) {
  return *v8::Number::New(isolate, value);
}

double v8__Number__Value(const v8::Number& self) { return self.Value(); }

const v8::Value* v8__Object__Get(const v8::Object& self,
                                 const v8::Context& context,
                                 const v8::Value& key) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->Get(ptr_to_local(&context), ptr_to_local(&key)));
}

const v8::Value* v8__Object__GetIndex(const v8::Object& self,
                                      const v8::Context& context,
                                      uint32_t index) {
  return maybe_local_to_ptr(
      ptr_to_local(&self)->Get(ptr_to_local(&context), index));
}

const v8::Array* v8__Object__GetOwnPropertyNames(
    const v8::Object* self, const v8::Context* context,
    v8::PropertyFilter filter, v8::KeyConversionMode key_conversion) {
  return maybe_local_to_ptr(ptr_to_local(self)->GetOwnPropertyNames(
      ptr_to_local(context), filter, key_conversion));
}

const v8::Object* v8__Object__New(v8::Isolate* isolate) {
  return local_to_ptr(v8::Object::New(isolate));
}

MaybeBool v8__Object__Set(const v8::Object& self, const v8::Context& context,
                          const v8::Value& key, const v8::Value& value) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->Set(
      ptr_to_local(&context), ptr_to_local(&key), ptr_to_local(&value)));
}

MaybeBool v8__Object__SetIndex(const v8::Object& self,
                               const v8::Context& context, uint32_t index,
                               const v8::Value& value) {
  return maybe_to_maybe_bool(ptr_to_local(&self)->Set(
      ptr_to_local(&context), index, ptr_to_local(&value)));
}

void v8__ResourceConstraints__ConfigureDefaultsFromHeapSize(RawConstraints* c, size_t initial, size_t maximum) {
  v8::ResourceConstraints r;
  r.ConfigureDefaultsFromHeapSize(initial, maximum);
  c->code_range = r.code_range_size_in_bytes();
  c->max_old = r.max_old_generation_size_in_bytes();
  c->max_young = r.max_young_generation_size_in_bytes();
  c->init_old = r.initial_old_generation_size_in_bytes();
  c->init_young = r.initial_young_generation_size_in_bytes();
}

void v8__ReturnValue__Value__Set(v8::ReturnValue<v8::Value>* self,
                                 const v8::Value& value) {
  self->Set(ptr_to_local(&value));
}

void v8__ScriptCompiler__CachedData__DELETE(
    v8::ScriptCompiler::CachedData* self) {
  delete self;
}

v8::ScriptCompiler::CachedData* v8__ScriptCompiler__CachedData__NEW(
    const uint8_t* data, int length) {
  return new v8::ScriptCompiler::CachedData(
      data, length, v8::ScriptCompiler::CachedData::BufferNotOwned);
}

const v8::Script* v8__Script__Compile(const v8::Context& context,
                                      const v8::String& source,
                                      const v8::ScriptOrigin& origin) {
  return maybe_local_to_ptr(
      v8::Script::Compile(ptr_to_local(&context), ptr_to_local(&source),
                          const_cast<v8::ScriptOrigin*>(&origin)));
}

const v8::Value* v8__Script__Run(const v8::Script& script,
                                 const v8::Context& context) {
  return maybe_local_to_ptr(ptr_to_local(&script)->Run(ptr_to_local(&context)));
}

void v8__StartupData__data__DELETE(const char* data) { delete[] data; }

bool v8__String__ContainsOnlyOneByte(const v8::String& self) {
  return self.ContainsOnlyOneByte();
}

const v8::String* v8__String__Empty(v8::Isolate* isolate) {
  return local_to_ptr(v8::String::Empty(isolate));
}

bool v8__String__IsOneByte(const v8::String& self) { return self.IsOneByte(); }

int v8__String__Length(const v8::String& self) { return self.Length(); }

const v8::String* v8__String__NewFromUtf8(v8::Isolate* isolate,
                                          const char* data,
                                          v8::NewStringType new_type,
                                          int length) {
  return maybe_local_to_ptr(
      v8::String::NewFromUtf8(isolate, data, new_type, length));
}

void v8__TryCatch__CONSTRUCT(uninit_t<v8::TryCatch>* buf,
                             v8::Isolate* isolate) {
  construct_in_place<v8::TryCatch>(buf, isolate);
}

void v8__TryCatch__DESTRUCT(v8::TryCatch* self) { self->~TryCatch(); }

const v8::Value* v8__TryCatch__Exception(const v8::TryCatch& self) {
  return local_to_ptr(self.Exception());
}

const v8::Message* v8__TryCatch__Message(const v8::TryCatch& self) {
  return local_to_ptr(self.Message());
}

const v8::Value* v8__TryCatch__StackTrace(const v8::TryCatch& self,
                                          const v8::Context& context) {
  return maybe_local_to_ptr(self.StackTrace(ptr_to_local(&context)));
}

const v8::Primitive* v8__Undefined(v8::Isolate* isolate) {
  return local_to_ptr(v8::Undefined(isolate));
}

uint32_t v8__ValueDeserializer__GetWireFormatVersion(
    v8::ValueDeserializer* self) {
  return self->GetWireFormatVersion();
}

bool v8__ValueDeserializer__ReadDouble(v8::ValueDeserializer* self,
                                       double* value) {
  return self->ReadDouble(value);
}

MaybeBool v8__ValueDeserializer__ReadHeader(v8::ValueDeserializer* self,
                                            v8::Local<v8::Context> context) {
  return maybe_to_maybe_bool(self->ReadHeader(context));
}

bool v8__ValueDeserializer__ReadRawBytes(v8::ValueDeserializer* self,
                                         size_t length, const void** data) {
  return self->ReadRawBytes(length, data);
}

bool v8__ValueDeserializer__ReadUint32(v8::ValueDeserializer* self,
                                       uint32_t* value) {
  return self->ReadUint32(value);
}

bool v8__ValueDeserializer__ReadUint64(v8::ValueDeserializer* self,
                                       uint64_t* value) {
  return self->ReadUint64(value);
}

v8::Value* v8__ValueDeserializer__ReadValue(v8::ValueDeserializer* self,
                                            v8::Local<v8::Context> context) {
  return maybe_local_to_ptr(self->ReadValue(context));
}

void v8__ValueDeserializer__TransferArrayBuffer(
    v8::ValueDeserializer* self, uint32_t transfer_id,
    v8::Local<v8::ArrayBuffer> array_buffer) {
  self->TransferArrayBuffer(transfer_id, array_buffer);
}

void v8__ValueDeserializer__TransferSharedArrayBuffer(
    v8::ValueDeserializer* self, uint32_t transfer_id,
    v8::Local<v8::SharedArrayBuffer> shared_array_buffer) {
  self->TransferSharedArrayBuffer(transfer_id, shared_array_buffer);
}

void v8__ValueSerializer__SetTreatArrayBufferViewsAsHostObjects(
    v8::ValueSerializer* self, bool mode) {
  self->SetTreatArrayBufferViewsAsHostObjects(mode);
}

void v8__ValueSerializer__TransferArrayBuffer(
    v8::ValueSerializer* self, uint32_t transfer_id,
    v8::Local<v8::ArrayBuffer> array_buffer) {
  self->TransferArrayBuffer(transfer_id, array_buffer);
}

void v8__ValueSerializer__WriteDouble(v8::ValueSerializer* self, double value) {
  self->WriteDouble(value);
}

void v8__ValueSerializer__WriteHeader(v8::ValueSerializer* self) {
  self->WriteHeader();
}

void v8__ValueSerializer__WriteRawBytes(v8::ValueSerializer* self,
                                        const void* source, size_t length) {
  self->WriteRawBytes(source, length);
}

void v8__ValueSerializer__WriteUint32(v8::ValueSerializer* self,
                                      uint32_t value) {
  self->WriteUint32(value);
}

void v8__ValueSerializer__WriteUint64(v8::ValueSerializer* self,
                                      uint64_t value) {
  self->WriteUint64(value);
}

MaybeBool v8__ValueSerializer__WriteValue(v8::ValueSerializer* self,
                                          v8::Local<v8::Context> context,
                                          v8::Local<v8::Value> value) {
  return maybe_to_maybe_bool(self->WriteValue(context, value));
}

bool v8__Value__BooleanValue(const v8::Value& self, v8::Isolate* isolate) {
  return self.BooleanValue(isolate);
}

bool v8__Value__IsArray(const v8::Value& self) { return self.IsArray(); }

bool v8__Value__IsArrayBuffer(const v8::Value& self) {
  return self.IsArrayBuffer();
}

bool v8__Value__IsArrayBufferView(const v8::Value& self) {
  return self.IsArrayBufferView();
}

bool v8__Value__IsAsyncFunction(const v8::Value& self) {
  return self.IsAsyncFunction();
}

bool v8__Value__IsBigInt(const v8::Value& self) { return self.IsBigInt(); }

bool v8__Value__IsBigInt64Array(const v8::Value& self) {
  return self.IsBigInt64Array();
}

bool v8__Value__IsBigUint64Array(const v8::Value& self) {
  return self.IsBigUint64Array();
}

bool v8__Value__IsBoolean(const v8::Value& self) { return self.IsBoolean(); }

bool v8__Value__IsDataView(const v8::Value& self) { return self.IsDataView(); }

bool v8__Value__IsDate(const v8::Value& self) { return self.IsDate(); }

bool v8__Value__IsExternal(const v8::Value& self) { return self.IsExternal(); }

bool v8__Value__IsFloat32Array(const v8::Value& self) {
  return self.IsFloat32Array();
}

bool v8__Value__IsFloat64Array(const v8::Value& self) {
  return self.IsFloat64Array();
}

bool v8__Value__IsFunction(const v8::Value& self) { return self.IsFunction(); }

bool v8__Value__IsGeneratorFunction(const v8::Value& self) {
  return self.IsGeneratorFunction();
}

bool v8__Value__IsInt16Array(const v8::Value& self) {
  return self.IsInt16Array();
}

bool v8__Value__IsInt32(const v8::Value& self) { return self.IsInt32(); }

bool v8__Value__IsInt32Array(const v8::Value& self) {
  return self.IsInt32Array();
}

bool v8__Value__IsInt8Array(const v8::Value& self) {
  return self.IsInt8Array();
}

bool v8__Value__IsMap(const v8::Value& self) { return self.IsMap(); }

bool v8__Value__IsMapIterator(const v8::Value& self) {
  return self.IsMapIterator();
}

bool v8__Value__IsModuleNamespaceObject(const v8::Value& self) {
  return self.IsModuleNamespaceObject();
}

bool v8__Value__IsNull(const v8::Value& self) { return self.IsNull(); }

bool v8__Value__IsNullOrUndefined(const v8::Value& self) {
  return self.IsNullOrUndefined();
}

bool v8__Value__IsNumber(const v8::Value& self) { return self.IsNumber(); }

bool v8__Value__IsObject(const v8::Value& self) { return self.IsObject(); }

bool v8__Value__IsPromise(const v8::Value& self) { return self.IsPromise(); }

bool v8__Value__IsProxy(const v8::Value& self) { return self.IsProxy(); }

bool v8__Value__IsRegExp(const v8::Value& self) { return self.IsRegExp(); }

bool v8__Value__IsSet(const v8::Value& self) { return self.IsSet(); }

bool v8__Value__IsSetIterator(const v8::Value& self) {
  return self.IsSetIterator();
}

bool v8__Value__IsSharedArrayBuffer(const v8::Value& self) {
  return self.IsSharedArrayBuffer();
}

bool v8__Value__IsString(const v8::Value& self) { return self.IsString(); }

bool v8__Value__IsStringObject(const v8::Value& self) {
  return self.IsStringObject();
}

bool v8__Value__IsSymbol(const v8::Value& self) { return self.IsSymbol(); }

bool v8__Value__IsTrue(const v8::Value& self) { return self.IsTrue(); }

bool v8__Value__IsTypedArray(const v8::Value& self) {
  return self.IsTypedArray();
}

bool v8__Value__IsUint16Array(const v8::Value& self) {
  return self.IsUint16Array();
}

bool v8__Value__IsUint32(const v8::Value& self) { return self.IsUint32(); }

bool v8__Value__IsUint32Array(const v8::Value& self) {
  return self.IsUint32Array();
}

bool v8__Value__IsUint8Array(const v8::Value& self) {
  return self.IsUint8Array();
}

bool v8__Value__IsUint8ClampedArray(const v8::Value& self) {
  return self.IsUint8ClampedArray();
}

bool v8__Value__IsUndefined(const v8::Value& self) {
  return self.IsUndefined();
}

bool v8__Value__IsWasmMemoryObject(const v8::Value& self) {
  return self.IsWasmMemoryObject();
}

bool v8__Value__IsWasmModuleObject(const v8::Value& self) {
  return self.IsWasmModuleObject();
}

bool v8__Value__IsWeakMap(const v8::Value& self) { return self.IsWeakMap(); }

bool v8__Value__IsWeakSet(const v8::Value& self) { return self.IsWeakSet(); }

void v8__Value__NumberValue(const v8::Value& self, const v8::Context& context,
                            v8::Maybe<double>* out) {
  *out = self.NumberValue(ptr_to_local(&context));
}

const v8::Object* v8__Value__ToObject(const v8::Value& self,
                                      const v8::Context& context) {
  return maybe_local_to_ptr(self.ToObject(ptr_to_local(&context)));
}

const v8::String* v8__Value__ToString(const v8::Value& self,
                                      const v8::Context& context) {
  return maybe_local_to_ptr(self.ToString(ptr_to_local(&context)));
}

void v8__Value__Uint32Value(const v8::Value& self, const v8::Context& context,
                            v8::Maybe<uint32_t>* out) {
  *out = self.Uint32Value(ptr_to_local(&context));
}

v8::Isolate* v8__WeakCallbackInfo__GetIsolate(
    const v8::WeakCallbackInfo<void>* self) {
  return self->GetIsolate();
}

void* v8__WeakCallbackInfo__GetParameter(
    const v8::WeakCallbackInfo<void>* self) {
  return self->GetParameter();
}

void v8__WeakCallbackInfo__SetSecondPassCallback(
    const v8::WeakCallbackInfo<void>* self,
    v8::WeakCallbackInfo<void>::Callback callback) {
  self->SetSecondPassCallback(callback);
}
}
#include "extra.cc"

# Edits that keep the behaviour: every check must stay quiet on them (python3-vt tools/mut.py tools/refactors.py; MISSED is the wanted result).
C = 'src/common/maf/messaging/client-server/'
I = 'include/maf/messaging/client-server/'
PRELUDE = ''.join('#include <%s>\n' % h for h in 'algorithm array cerrno cstdlib cstring functional iterator list memory mutex numeric optional string thread tuple utility vector'.split())
M = []
SP, SR = C + 'ServiceProvider.cpp', C + 'ServiceRequester.cpp'
M += [
('r-sp-find', 'P01', SP, '''    auto &requestList = itRequestList->second;
    for (auto itRequest = requestList.begin(); itRequest != requestList.end();
         ++itRequest) {
      RequestPtr &requestTmp = *itRequest;
      // request ids are unique per client only
      if (requestTmp->getRequestID() == msg->requestID() &&
          requestTmp->getSourceAddress() == msg->sourceAddress()) {
        request = requestTmp;
        if (remove) {
          requestList.erase(itRequest);
        }
        break;
      }
    }
''', '''    auto &requestList = itRequestList->second;
    const auto wanted = std::make_tuple(msg->requestID(), msg->sourceAddress());
    auto found = std::find_if(std::begin(requestList), std::end(requestList), [&wanted](const auto &r) {
      return std::make_tuple(r->getRequestID(), r->getSourceAddress()) == wanted;
    });
    if (found != requestList.cend()) {
      request = remove ? std::move(*found) : *found;
      if (remove) requestList.erase(found);
    }
'''),
('r-sp-broadcast', 'P02 P04', SP, '''    auto busyReceivers = trySendToDestinations(addresses);
    if (!busyReceivers.empty()) {
      // If someones are busy, try with them once
      MAF_LOGGER_WARN("Trying to send message to busy addresses once again!");
      busyReceivers = trySendToDestinations(busyReceivers);
    }
''', '''    std::optional<AddressList> remaining{std::move(addresses)};
    int round = 2;
    while (remaining.has_value() && round-- > 0) {
      auto next = trySendToDestinations(*remaining);
      if (next.empty()) {
        remaining.reset();
      } else {
        remaining.emplace(next.rbegin(), next.rend());
        std::reverse(remaining->begin(), remaining->end());
      }
    }
'''),
('r-sp-collect', 'P02 P04', SP, '''    for (const auto &[clientAddress, registeredPropertyIDs] : *regEntriesMap_) {
      if (registeredPropertyIDs.find(propertyID) !=
          registeredPropertyIDs.end()) {
        addresses.push_back(clientAddress);
      }
    }
''', '''    addresses.reserve(regEntriesMap_->size());
    std::for_each(regEntriesMap_->cbegin(), regEntriesMap_->cend(), [&](const auto &entry) {
      if (std::any_of(entry.second.begin(), entry.second.end(), [&](const OpID &id) { return id.compare(propertyID) == 0; })) {
        addresses.insert(addresses.end(), entry.first);
      }
    });
    addresses.shrink_to_fit();
'''),
('r-sp-set', 'P04', SP, '''    auto &currentProperty = (*propertyMap_)[propertyID];
    if (!currentProperty || !currentProperty->equal(newProperty.get())) {
      currentProperty = newProperty;
      notify = true;
    }
''', '''    auto it = propertyMap_->lower_bound(propertyID);
    if (it == propertyMap_->end() || it->first != propertyID) {
      propertyMap_->emplace_hint(it, std::piecewise_construct, std::forward_as_tuple(propertyID), std::forward_as_tuple(newProperty));
      notify = true;
    } else if (!(it->second && it->second->equal(newProperty.get()))) {
      CSPayloadIFPtr old = std::exchange(it->second, newProperty);
      notify = true;
    }
'''),
('r-sp-abortall', 'P01 P09', SP, '''  RequestMap::DataType requestsMap;
  requestsMap.swap(*requestsMap_.atomic());
  for (auto &[opID, requests] : requestsMap) {
    for (auto &request : requests) {
      request->invalidate();
      if (auto abortCallback = request->getAbortCallback()) {
        abortCallback();
      }
    }
  }
''', '''  std::vector<RequestPtr> all;
  {
    auto session = requestsMap_.atomic();
    for (auto it = session->begin(); it != session->end(); it = session->erase(it)) {
      std::move(it->second.begin(), it->second.end(), std::back_inserter(all));
    }
  }
  for (size_t i = 0; i < all.size(); ++i) {
    const auto &request = all.at(i);
    static_cast<void>(request->invalidate());
    const auto callback = request->getAbortCallback();
    if (!callback) continue;
    std::invoke(callback);
  }
'''),
('r-sr-result', 'P03', SR, '''      for (auto itRegEntry = regEntries.begin(); itRegEntry != regEntries.end();
           ++itRegEntry) {
        if (itRegEntry->requestID == msg->requestID()) {
          if (msg->operationCode() != OpCode::PartialRequestUpdate) {
            callback = std::move(itRegEntry->callback);
            regEntries.erase(itRegEntry);
          } else if (itRegEntry->acceptUpdates) {
            callback = itRegEntry->callback;
          }
          found = true;
          break;
        }
      }
''', '''      const bool partial = msg->operationCode() == OpCode::PartialRequestUpdate;
      auto itRegEntry = std::find_if(regEntries.begin(), regEntries.end(), [id = msg->requestID()](const RegEntry &e) { return !(e.requestID != id); });
      if (itRegEntry == regEntries.end()) {
        found = false;
      } else {
        found = true;
        if (partial) {
          if (itRegEntry->acceptUpdates) callback = itRegEntry->callback;
        } else {
          std::swap(callback, itRegEntry->callback);
          regEntries.erase(itRegEntry);
        }
      }
'''),
('r-sr-notify', 'P04 P07', SR, '''      for (auto &regEntry : it->second) {
        callbacks.push_back(regEntry.callback);
      }
''', '''      std::transform(it->second.begin(), it->second.end(), std::back_inserter(callbacks), [](const auto &e) { return e.callback; });
'''),
('r-sr-observers', 'P05 P08', SR, '''        auto it = find();
        if (it == newObservers.end()) {
          break;  // has unregistered meanwhile
        }
        currentServiceStatus = serviceStatus();
        if (currentServiceStatus == told ||
            (told == Availability::Unknown &&
             currentServiceStatus != Availability::Available)) {
          accept(it);
          break;
        }
''', '''        const auto it = std::find_if(std::begin(newObservers), std::end(newObservers),
                                     [&](const auto &o) { return !(o != observer); });
        const bool waits = it != newObservers.end();
        const auto now = serviceStatus();
        const bool nothingToTell = told == Availability::Unknown ? now != Availability::Available : now == told;
        if (waits && nothingToTell) accept(it);
        if (!waits || nothingToTell) break;
        currentServiceStatus = now;
'''),
('r-sr-unregister', 'P04 P05', SR, '''  auto callstatus = ActionCallStatus::Success;
  if (regID.valid()) {
    auto propertyID = regID.opID;
    auto removed = removeRegEntry(registerEntriesMap_, regID);
    if (removed && !subscribingProperty(propertyID)) {
      // send unregister if no one from client side interested
      // in this propertyID anymore
      removeCachedProperty(propertyID);
      if (serviceUnavailable()) {
        callstatus = ActionCallStatus::ServiceUnavailable;
      } else {
        withdrawInterest(propertyID);
      }
    }
  } else {
    callstatus = ActionCallStatus::InvalidParam;
    MAF_LOGGER_WARN("Try to Unregister invalid RegID");
  }

  return callstatus;
''', '''  if (!regID.valid()) {
    MAF_LOGGER_WARN("Try to Unregister invalid RegID");
    return ActionCallStatus::InvalidParam;
  }
  const std::string propertyID{regID.opID.begin(), regID.opID.end()};
  if (!removeRegEntry(registerEntriesMap_, regID) || subscribingProperty(propertyID)) {
    return ActionCallStatus::Success;
  }
  removeCachedProperty(propertyID);
  if (serviceUnavailable()) return ActionCallStatus::ServiceUnavailable;
  return withdrawInterest(propertyID), ActionCallStatus::Success;
'''),
('r-sr-sync', 'P03 P09', SR, '''      if (timeout == RequestTimeoutMs{0}) {
        return resultFuture.get();
      } else {
        if (resultFuture.wait_for(timeout) == std::future_status::ready) {
          if (auto msg = resultFuture.get()) {
            return msg;
          }
        } else {
''', '''      const bool forever = timeout.count() == 0;
      if (forever) {
        resultFuture.wait();
        return resultFuture.get();
      } else {
        const auto until = std::chrono::steady_clock::now() + timeout;
        const auto ready = resultFuture.wait_until(until);
        if (ready == std::future_status::ready) {
          if (auto msg = resultFuture.get(); msg != nullptr) {
            return msg;
          }
        } else {
'''),
]
CB, SB, RQ = C + 'ClientBase.cpp', C + 'ServerBase.cpp', C + 'Request.cpp'
M += [
('r-sb-find', 'P06', SB, '''  std::unique_lock lock(providers_);
  if (auto provider = util::get(*providers_, csMsg->serviceID())) {
    lock.unlock();
    return provider->onIncomingMessage(csMsg);
  } else {
    return false;
  }
''', '''  const auto provider = [&]() -> ServiceProviderIFPtr {
    const std::scoped_lock lock(providers_);
    const auto it = providers_->find(csMsg->serviceID());
    return it != providers_->end() ? it->second : nullptr;
  }();
  return provider && provider->onIncomingMessage(csMsg);
'''),
('r-sb-deinit', 'P05 P09', SB, '''  auto providers = *providers_.atomic();

  for (auto &[_, provider] : providers) {
    provider->stopServing();
  }
''', '''  auto providers = [this] { std::lock_guard lock(providers_); return *providers_; }();

  for (auto it = providers.cbegin(), end = providers.cend(); it != end; std::advance(it, 1)) {
    std::get<1>(*it)->stopServing();
  }
'''),
('r-cb-incoming', 'P05 P06', CB, '''    auto requester = ServiceRequesterIFPtr{};
    {
      std::lock_guard lock(_requestersMap);
      if (auto itProxy = _requestersMap->find(msg->serviceID());
          itProxy != _requestersMap->end()) {
        requester = itProxy->second;
      }
    }

    if (requester) {
      return requester->onIncomingMessage(msg);
    }

    return false;
''', '''    ServiceRequesterIFPtr requester;
    _requestersMap.lock();
    for (const auto &e : *_requestersMap) {
      if (e.first == msg->serviceID()) { requester = e.second; break; }
    }
    _requestersMap.unlock();
    return requester ? requester->onIncomingMessage(msg) : false;
'''),
('r-cb-server', 'P05 P08', CB, '''    auto requesters = *_requestersMap.atomic();
    for (auto &[sid, requester] : requesters) {
      requester->onServiceStatusChanged(sid, oldStatus, newStatus);
    }
''', '''    std::vector<std::pair<ServiceID, ServiceRequesterIFPtr>> requesters;
    {
      auto session = _requestersMap.atomic();
      requesters.assign(session->begin(), session->end());
    }
    size_t i = 0;
    do {
      if (i == requesters.size()) break;
      auto &&[sid, requester] = requesters[i];
      requester->onServiceStatusChanged(sid, oldStatus, newStatus);
    } while (++i);
'''),
('r-sp-register', 'P02 P08', SP, '''  registering_.atomic()->insert(registration);
  for (CSPayloadIFPtr sent;;) {
    {
      std::lock_guard lock(propertyMap_);
      auto it = propertyMap_->find(msg->operationID());
      auto current = it != propertyMap_->end() ? it->second : nullptr;
      if (current == sent) {
        // Might have been withdrawn meanwhile
        if (registering_.atomic()->erase(registration) != 0) {
          // Do this for notifying status when changed
          saveRegisterInfo(msg);
        }
        break;
      }
      sent = std::move(current);
    }
    sendBackMessageToClient(''', '''  {
    std::unique_lock lock(registering_);
    registering_->emplace(registration);
  }
  CSPayloadIFPtr sent;
  // true once the client knows the current value and is registered
  auto upToDate = [&] {
    std::unique_lock lock(propertyMap_);
    CSPayloadIFPtr current;
    for (const auto &[id, value] : *propertyMap_) if (id == msg->operationID()) { current = value; break; }
    const bool same = sent == current;
    if (same) {
      size_t erased;
      {
        std::lock_guard waiting(registering_);
        erased = registering_->erase(registration);
      }
      if (erased) saveRegisterInfo(msg);
    } else {
      std::swap(sent, current);
    }
    return same;
  };
  while (!upToDate()) {
    sendBackMessageToClient('''),
('r-sr-register', 'P04', SR, '''  bool first = false;
  for (CSPayloadIFPtr told;;) {
    {
      std::lock_guard lock(registerEntriesMap_);
      auto &regEntries = (*registerEntriesMap_)[opID];
      auto current = regEntries.empty() || opCode != OpCode::StatusRegister
                         ? told
                         : findCachedProperty(opID);
      if (current == told) {
        first = regEntries.empty();
        regEntries.emplace_back(regID.requestID, std::move(callback), true,
                                opCode);
        break;
      }
      told = std::move(current);
    }
''', '''  bool first = false, registered = false;
  for (CSPayloadIFPtr told; !registered;) {
    {
      std::unique_lock lock(registerEntriesMap_);
      auto &regEntries = registerEntriesMap_->try_emplace(opID).first->second;
      first = regEntries.empty();
      const bool followsValue = !first && opCode == OpCode::StatusRegister;
      const CSPayloadIFPtr current = followsValue ? findCachedProperty(opID) : told;
      registered = !(current != told);
      if (registered) {
        regEntries.emplace_back(regID.requestID, std::move(callback), true, opCode);
        continue;
      }
      told = current;
    }
'''),
('r-cb-get', 'P05 P06', CB, '''    std::lock_guard lock(_serviceStatusMap);
    auto itServiceStatus = _serviceStatusMap->find(sid);
    if (itServiceStatus != _serviceStatusMap->end()) {
      requester->onServiceStatusChanged(itServiceStatus->first,
                                        Availability::Unknown,
                                        itServiceStatus->second);
    }
    requester->init();
    _requestersMap->emplace(sid, requester);
    return requester;
''', '''    std::unique_lock statusLock(_serviceStatusMap);
    for (const auto &[known, status] : *_serviceStatusMap) {
      if (!(known != sid)) requester->onServiceStatusChanged(known, Availability::Unknown, status);
    }
    requester->init();
    return _requestersMap->insert({sid, std::move(requester)}).first->second;
'''),
('r-rq-reply', 'P01', RQ, '''    if (auto stub = _svStub.lock()) {
      // unlock to avoid deadlock when stub tries to invalidate this request
      // and to avoid other thread from waiting for lock during message sending
      lock.unlock();
      return stub->respondToRequest(replyMsg);
    } else {
      return ActionCallStatus::ReceiverUnavailable;
    }
''', '''    const auto stub = _svStub.lock();
    lock.release()->unlock();
    return stub ? stub->respondToRequest(std::move(replyMsg)) : ActionCallStatus::ReceiverUnavailable;
'''),
('r-rq-abort', 'P01', RQ, '''  std::unique_lock lock(_mutex);
  if (!_valid) {
    // the callback might use this request
    lock.unlock();
    abortCallback();
  } else {
    _abortCallback = std::move(abortCallback);
  }
''', '''  bool now;
  {
    std::lock_guard guard{_mutex};
    now = !_valid;
    if (_valid) _abortCallback.swap(abortCallback);
  }
  if (now) abortCallback();
'''),
]
Q = 'include/maf/threading/ThreadSafeQueue.h'
M += [
('r-q-wait', 'Q01 Q02 T01 M02', Q, '''    std::unique_lock lock(queue_);
    queueNotEmpty_.wait(lock,
                        [this] { return !queue_->empty() || isClosed(); });
    if (!isClosed() && !queue_->empty()) {
      value = std::move(queue_->front());
      queue_->pop();
      return true;
    }
    return false;
''', '''    std::unique_lock lock(queue_);
    while (queue_->empty()) {
      if (isClosed()) return false;
      queueNotEmpty_.wait(lock);
    }
    if (isClosed()) return false;
    auto &&front = queue_->front();
    value = std::move(front);
    queue_->pop();
    return true;
'''),
('r-q-push', 'Q01 Q02', Q, '''    std::lock_guard lock(queue_);
    if (!isClosed()) {
      queue_->push(data);
      queueNotEmpty_.notify_one();
    }
''', '''    std::unique_lock lock(queue_);
    if (isClosed()) return;
    queue_->emplace(data);
    lock.unlock();
    queueNotEmpty_.notify_one();
'''),
('r-q-clear', 'Q01 Q02 M01', Q, '''      while (!removed.empty()) {
        auto v = std::move(removed.front());
        onClearCallback(v);
        removed.pop();
      }
''', '''      for (; !removed.empty(); removed.pop()) {
        value_type v(std::move(removed.front()));
        onClearCallback(v);
      }
'''),
('r-id', 'A02', 'include/maf/utils/IDManager.h', '''    auto id = INVALID_ID;
    do {
      // loop until getting a non invalid id
      id = idCounter_.fetch_add(1, std::memory_order_relaxed);
    } while (id == INVALID_ID);

    return id;
''', '''    for (;;) {
      IDType id = idCounter_.load(std::memory_order_acquire);
      while (!idCounter_.compare_exchange_weak(id, static_cast<IDType>(id + 1), std::memory_order_acq_rel)) {
      }
      if (isValidID(id)) return id;
    }
'''),
]
T = 'src/common/maf/messaging/Timer.cpp'
M += [
('r-t-remove', 'C01 C02', T, '''    } else if (auto it = std::remove(begin(), end(), tm); it != end()) {
      records_.erase(it);
      if (!checkRecordListEmpty()) {
        refresh();
      }
    }
''', '''    } else {
      Heap kept;
      std::copy_if(begin(), end(), std::back_inserter(kept), [&tm](const auto &r) { return r != tm; });
      if (kept.size() != records_.size()) {
        records_ = std::move(kept);
        if (!checkRecordListEmpty()) refresh();
      }
    }
'''),
('r-t-heap', 'C01 C02', T, '''  records_.push_back(move(newRecord));
  push_heap(begin(), end(), timerGreater);
''', '''  auto &added = records_.emplace_back();
  added.swap(newRecord);
  refresh();
'''),
('r-t-greater', 'C01 C02', T, '''  return t1->deadline > t2->deadline;
''', '''  const auto d1 = t1->deadline.time_since_epoch(), d2 = t2->deadline.time_since_epoch();
  return std::less<>{}(d2, d1);
'''),
('r-t-state', 'C01 C02', T, '''  if (record->cyclic) {
    updateShortestTimer();
  } else {
    record->running = false;
    removeShortestTimer();
  }
  record->onExpired();
''', '''  const TimerDataPtr keep = record;
  switch (int(keep->cyclic)) {
    case 0:
      keep->running = false;
      removeShortestTimer();
      break;
    default:
      updateShortestTimer();
  }
  keep->onExpired();
'''),
]
P, RT = 'src/common/maf/messaging/Processor.cpp', 'src/common/maf/messaging/Router.cpp'
M += [
('r-p-run', 'M01 M02 M04', P, '''  ExecutionUPtr exc;
  while (d_->pendingExecutions.wait(exc)) {
    invoke(std::move(exc));
  }
}
''', '''  for (;;) {
    ExecutionUPtr next;
    if (!d_->pendingExecutions.wait(next)) break;
    (*next)();
    next.reset();
  }
}
'''),
('r-p-execute', 'M01 M02', P, '''  if (!stopped()) {
    if (this_processor::instance().get() == this) {
      exec();
      return true;
    } else {
      return d_->addExecution(move(exec));
    }
  }
  return false;
''', '''  if (stopped()) return false;
  const bool here = this_processor::is(this);
  const auto keep = here ? this->weak_from_this().lock() : nullptr;
  return here ? (exec(), true) : d_->addExecution(move(exec));
'''),
('r-p-waitable', 'M04 M02', P, '''    auto task = make_shared<packaged_task<void()>>(move(exec));
    doneSignal = CompleteSignal{task->get_future()};
    if (!this_processor::is(this)) {
      executeAsync([task{move(task)}] { (*task)(); });
    } else {
      (*task)();
    }
''', '''    auto done = make_shared<promise<void>>();
    doneSignal = CompleteSignal{done->get_future()};
    auto body = [done, exec = move(exec)]() mutable {
      try {
        exec();
        done->set_value();
      } catch (...) {
        done->set_exception(current_exception());
      }
    };
    done.reset();
    if (this_processor::is(this)) {
      body();
    } else {
      executeAsync(Execution{move(body)});
    }
'''),
('r-p-handlers', 'M03 M05', P, '''    std::lock_guard lock(msgHandlersMap);
    auto &handlers = (*msgHandlersMap)[msgID];
    if (!handlers) {
      handlers = std::make_shared<Handlers>();
    }
    return handlers;
''', '''    auto session = msgHandlersMap.atomic();
    auto it = session->find(msgID);
    if (it == session->end()) {
      it = session->insert(std::make_pair(msgID, std::make_shared<Handlers>())).first;
    }
    return it->second;
'''),
('r-p-anon', 'M05', P, '''  return id.length() > anonymous_prefix.length() &&
         std::string_view(id.c_str(), anonymous_prefix.length()) ==
             anonymous_prefix;
''', '''  return id.size() > anonymous_prefix.size() && id.compare(0, anonymous_prefix.size(), anonymous_prefix.data(), anonymous_prefix.size()) == 0;
'''),
('r-p-conn', 'M03', P, '''  std::swap(_, con._);
  return *this;
''', '''  auto mine = std::exchange(_, con._);
  con._ = mine;
  return *this;
'''),
('r-rt-all', 'M05', RT, '''  bool delivered = false;
  for (const auto &comp : processors()) {
    delivered |= askThenPost(comp, std::move(msg));
  }
  return delivered;
''', '''  const auto all = processors();
  return std::accumulate(all.begin(), all.end(), 0u, [&msg](unsigned n, const ProcessorInstance &comp) { return n + (askThenPost(comp, msg) ? 1u : 0u); }) != 0;
'''),
('r-rt-sendall', 'M05', RT, '''  if (!msgMessageHandledSignals.empty()) {
    return Processor::CompleteSignal{async(
        launch::deferred, [sigs{move(msgMessageHandledSignals)}]() mutable {
          for (auto &sig : sigs) {
            sig.get();
          }
        })};
  } else {
    return {};
  }
''', '''  if (msgMessageHandledSignals.empty()) return {};
  auto shared = make_shared<vector<Processor::CompleteSignal>>();
  shared->swap(msgMessageHandledSignals);
  return Processor::CompleteSignal{async(launch::deferred, [shared] { for_each(shared->begin(), shared->end(), [](auto &s) { s.get(); }); })};
'''),
('r-rt-erase', 'M05', RT, '''  auto itProcessor = atProcessors->find(comp);
  if (itProcessor != atProcessors->end() && *itProcessor == comp) {
    atProcessors->erase(itProcessor);
    return true;
  }
  return false;
''', '''  auto itProcessor = std::find(atProcessors->begin(), atProcessors->end(), comp);
  if (itProcessor == atProcessors->end()) return false;
  atProcessors->erase(itProcessor);
  return true;
'''),
]
X = 'src/platforms/unix/maf/messaging/client-server/ipc/'
M += [
('r-rx-read', 'I02', X + 'LocalIPCBufferReceiverImpl.cpp', '''    auto bytesRead = read(fd, bytes, length);
    if (bytesRead <= 0) {
      return false;
    }
    bytes += bytesRead;
    length -= static_cast<size_t>(bytesRead);
''', '''    const ssize_t got = recv(fd, bytes, length, 0);
    if (got < 1) return false;
    std::advance(bytes, got);
    length = length - size_t(got);
'''),
('r-rx-payload', 'I02', X + 'LocalIPCBufferReceiverImpl.cpp', '''  while (payload.size() < length) {
    auto offset = payload.size();
    auto chunk = std::min(length - offset, MAX_READ_CHUNK);
    payload.resize(offset + chunk);
    if (!readAll(fd, payload.data() + offset, chunk)) {
      return false;
    }
  }
  return true;
''', '''  std::vector<char> part;
  for (size_t left = length; left != 0; left -= part.size()) {
    part.assign(std::min(left, MAX_READ_CHUNK), '\\0');
    if (!readAll(fd, part.data(), part.size())) return false;
    payload.append(part.begin(), part.end());
  }
  return true;
'''),
('r-rx-slots', 'I02', X + 'LocalIPCBufferReceiverImpl.cpp', '''      for (size_t i = 0; i < MAXCLIENTS; i++) {
        // if position is empty
        if (fdClientSocks[i] == INVALID_FD) {
          fdClientSocks[i] = std::move(acceptedSD);
          break;
        }
      }
''', '''      auto slot = std::find_if(fdClientSocks.begin(), fdClientSocks.end(), [](auto &fd) { return fd == INVALID_FD; });
      if (slot != fdClientSocks.end()) *slot = std::move(acceptedSD);
'''),
('r-tx-write', 'I03', X + 'LocalIPCBufferSenderImpl.cpp', '''  while (length > 0) {
    auto written = ns_global::send(fd, bytes, length, MSG_NOSIGNAL);
    if (written <= 0) {
      return false;
    }
    bytes += written;
    length -= static_cast<size_t>(written);
  }
  return true;
''', '''  const char *const end = bytes + length;
  ssize_t written = 1;
  for (; bytes != end && written > 0; bytes += written > 0 ? written : 0) {
    written = ns_global::send(fd, bytes, static_cast<size_t>(end - bytes), MSG_NOSIGNAL);
  }
  return bytes == end;
'''),
('r-tx-once', 'I03', X + 'LocalIPCBufferSenderImpl.cpp', '''    } else if (!writeAll(fd, reinterpret_cast<const char *>(&payloadSize),
                         sizeof(SizeType))) {
''', '''    } else if (std::array<char, sizeof(SizeType)> raw; std::memcpy(raw.data(), &payloadSize, raw.size()), !writeAll(fd, raw.data(), raw.size())) {
'''),
]
SG = 'include/maf/utils/SignalSlots.h'
M += [
('r-sg-size', 'G01 G02 G03', SG, '''    return slots_.size() - count(begin(slots_), end(slots_), nullptr);
''', '''    size_t n = 0;
    for (const auto& s : slots_) n += s ? 1 : 0;
    return n;
'''),
('r-sg-remove', 'G01 G02', SG, '''    if (!notifying_) {
      if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
        slots_.erase(i);
        return true;
      }
    } else {
      if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
        i->reset();
        return true;
      }
    }
    return false;
''', '''    auto i = find_if(begin(slots_), end(slots_), [&s](const auto& x) { return x.get() == s.get() && x; });
    if (i == end(slots_)) return s == nullptr && has(s);
    if (notifying_) {
      SlotPtrType dropped;
      dropped.swap(*i);
    } else {
      SlotsType dropped;
      dropped.splice(dropped.begin(), slots_, i);
    }
    return true;
'''),
('r-sg-notify', 'G01 G02', SG, '''      for (auto it = begin(slots_); it != end(slots_); ++it) {
        // the copy keeps the slot alive if it gets disconnected while running
        if (auto slot = *it) {
          std::invoke(*slot, args...);
        }
      }
''', '''      auto it = slots_.begin();
      while (it != slots_.end()) {
        const SlotPtrType slot{*it};
        if (slot && *slot) slot->operator()(args...);
        it = next(it);
      }
'''),
('r-sg-conn', 'G01 G02', SG, '''      if (auto s = get<ConnectorRef_>(ctor_).lock()) {
        if (auto hub = hubref_.lock()) {
          if (hub->disconnect(s)) {
            ctor_ = move(s);
            return true;
          }
        } else {
          ctor_ = {};
        }
      }
''', '''      const auto* ref = get_if<ConnectorRef_>(&ctor_);
      auto s = ref ? ref->lock() : nullptr;
      if (s) {
        const auto hub = hubref_.lock();
        if (!hub) {
          ctor_ = {};
        } else if (hub->disconnect(s)) {
          ctor_.template emplace<ConnectorPtr_>(move(s));
          return true;
        }
      }
'''),
]
Z = 'include/maf/utils/serialization/Serializer.h'
M += [
('r-z-seq', 'S01 S02 S03 I01', Z, '''      SizeType contentSize = 0;
      for (const auto &e : c) {
        contentSize += maf::srz::serializedSize(e);
      }
      return SIZETYPE_WIDE + contentSize;
''', '''      return std::accumulate(std::begin(c), std::end(c), SIZETYPE_WIDE, [](SizeType n, const auto &e) { return static_cast<SizeType>(n + maf::srz::serializedSize(e)); });
'''),
('r-z-des', 'S01 S03 I01', Z, '''        for (SizeType i = 0; i < size; ++i) {
          DSBElemType elem;
          if (success = maf::srz::deserialize(is, elem); success) {
            if constexpr (nstl::is_back_insertible_v<Container>) {
              c.push_back(std::move(elem));
            } else {
              c.insert(std::move(elem));
            }
          } else {
            break;
          }
        }
''', '''        auto left = size;
        while (success && left-- > 0) {
          DSBElemType elem;
          success = maf::srz::deserialize(is, elem);
          if (!success) continue;
          if constexpr (nstl::is_back_insertible_v<Container>) {
            c.insert(c.end(), std::move(elem));
          } else {
            c.emplace(std::move(elem));
          }
        }
'''),
('r-z-ptr', 'S01 S03', Z, '''        p = new NormalTypeOfPointerType{};
        success = maf::srz::deserialize(is, *p);
        if (!success) {
          delete p;
          p = nullptr;
        }
''', '''        auto owned = std::make_unique<NormalTypeOfPointerType>();
        success = maf::srz::deserialize(is, *owned);
        p = success ? owned.release() : nullptr;
'''),
('r-is-read', 'S04 S01 S03', 'include/maf/utils/serialization/IByteStream.h', '''      std::memcpy(buf, buffer_.data() + readingPos_, size);
''', '''      std::copy_n(buffer_.data() + readingPos_, size, buf);
'''),
]
TP = 'include/maf/threading/ThreadPoolImplBase.h'
LS, LC = C + 'ipc/LocalIPCServer.cpp', C + 'ipc/LocalIPCClient.cpp'
M += [
('r-tp-remove', 'T01', TP, '''    for (auto iTask = _runningTasks.begin(); iTask != _runningTasks.end();
         ++iTask) {
      if (*iTask == task) {
        _runningTasks.erase(iTask);
        break;
      }
    }
''', '''    auto found = std::find(_runningTasks.begin(), _runningTasks.end(), task);
    if (found != _runningTasks.end()) _runningTasks.erase(found);
'''),
('r-tp-join', 'T01', TP, '''    std::vector<std::thread> pool;
    {
      std::lock_guard<std::mutex> lock(_poolMutex);
      _stopped = true;
      pool.swap(_pool);
    }
    for (auto &th : pool) {
      if (th.joinable()) {
        th.join();
      }
    }
''', '''    std::unique_lock<std::mutex> lock(_poolMutex);
    _stopped = true;
    std::list<std::thread> pool(std::make_move_iterator(_pool.begin()), std::make_move_iterator(_pool.end()));
    _pool.clear();
    lock.unlock();
    while (!pool.empty()) {
      if (pool.front().joinable()) pool.front().join();
      pool.pop_front();
    }
'''),
('r-ls-notify', 'P08', LS, '''    for (auto itAddr = registedClAddrs_->begin();
         itAddr != registedClAddrs_->end();) {
      auto ec = sendMessageToClient(serviceStatusMsg, *itAddr);
''', '''    for (auto itAddr = registedClAddrs_->begin(), last = registedClAddrs_->end();
         itAddr != last;) {
      const Address to = *itAddr;
      auto ec = sendMessageToClient(serviceStatusMsg, to);
'''),
('r-lc-monitor', 'P08', LC, '''  serverMonitorTimer_.start(tunedInterval, [tunedInterval, this] {
    this->monitorServerStatus(tunedInterval);
  });
''', '''  const auto again = std::bind(&LocalIPCClient::monitorServerStatus, this, tunedInterval);
  serverMonitorTimer_.start(std::chrono::milliseconds{tunedInterval}, again);
'''),
('r-sync', 'C03', 'src/common/maf/messaging/SyncTimer.cpp', '''      unsigned restarts;
      bool interrupted;
      do {
        restarts = d_->restarts;
        interrupted = d_->timeoutCondition.wait_for(
            lock, milliseconds,
            [&] { return stopped() || d_->restarts != restarts; });
      } while (interrupted && !stopped());

      if (!interrupted) {
''', '''      bool interrupted = true;
      while (interrupted) {
        const auto restarts = d_->restarts;
        const auto deadline = std::chrono::steady_clock::now() + milliseconds;
        auto due = [&] { return d_->restarts != restarts || stopped(); };
        interrupted = due();
        while (!interrupted) {
          const auto why = d_->timeoutCondition.wait_until(lock, deadline);
          interrupted = due();
          if (why == std::cv_status::timeout) break;
        }
        if (stopped()) break;
      }

      if (!interrupted) {
'''),
('r-noop', 'P01 P03 M01 Q01 G01 C01 I02', [
  (SP, '''  auto notify = false;
  {''', '''  auto notify = false;
  volatile int nothing = 0;
  nothing = nothing + 1;
  {'''),
  (SR, '''  bool found = false;

  {  // create''', '''  bool found = false;
  static const std::string unused{"nothing"};
  if (unused.empty()) return;

  {  // create'''),
  (P, '''bool Processor::executeAsync(Execution exec) {
''', '''bool Processor::executeAsync(Execution exec) {
  asm volatile("" ::: "memory");
'''),
  (Q, '''  bool empty() { return queue_.atomic()->empty(); }''', '''  bool empty() { std::this_thread::yield(); return queue_.atomic()->empty(); }'''),
  (SG, '''      PurgeScope_ purge{*this};
''', '''      PurgeScope_ purge{*this};
      std::atomic_thread_fence(std::memory_order_seq_cst);
'''),
  (T, '''  return t1->deadline > t2->deadline;
''', '''  thread_local int compared = 0;
  ++compared;
  return t1->deadline > t2->deadline;
'''),
  (X + 'LocalIPCBufferReceiverImpl.cpp', '''  bool startable = false;
''', '''  bool startable = false;
  errno = 0;
  (void)std::getenv("HOME");
'''),
  ], None, None),
]

# an entry may be a list of edits: other system calls to the same end
RX, TX = X + 'LocalIPCBufferReceiverImpl.cpp', X + 'LocalIPCBufferSenderImpl.cpp'
M += [
('r-rx-poll', 'I02', [
  (RX, '#include <algorithm>\n', '#include <poll.h>\n\n#include <algorithm>\n'),
  (RX, "    // clear the socket set\n    FD_ZERO(&readfds);\n", "    std::vector<pollfd> polled;\n    FD_ZERO(&readfds);\n"),
  (RX, "        FD_SET(fdMySock_, &readfds);\n", "        polled.push_back({fdMySock_, POLLIN, 0});\n"),
  (RX, "      if (sd != INVALID_FD) FD_SET(sd, &readfds);\n", "      if (sd != INVALID_FD) polled.push_back({sd, POLLIN, 0});\n"),
  (RX, "    timeval timeout = {1, 0};\n", ""),
  (RX, "    auto totalSD = select(maxSd + 1, &readfds, nullptr, nullptr, &timeout);\n", "    auto totalSD = poll(polled.data(), polled.size(), 1000);\n    for (auto &p : polled) if (totalSD > 0 && p.revents) FD_SET(p.fd, &readfds);\n"),
], None, None),
('r-rx-recv', 'I02', [
  (RX, "    auto bytesRead = read(fd, bytes, length);\n", "    iovec v{bytes, length};\n    msghdr m{};\n    m.msg_iov = &v;\n    m.msg_iovlen = 1;\n    auto bytesRead = recvmsg(fd, &m, 0);\n"),
  (RX, "          accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);\n", "          accept4(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen, SOCK_CLOEXEC);\n"),
], None, None),
('r-tx-msg', 'I03', TX, "    auto written = ns_global::send(fd, bytes, length, MSG_NOSIGNAL);\n", "    iovec v{const_cast<char *>(bytes), length};\n    msghdr m{};\n    m.msg_iov = &v;\n    m.msg_iovlen = 1;\n    auto written = ::sendmsg(fd, &m, MSG_NOSIGNAL);\n"),
('r-tx-to', 'I03', TX, "    auto written = ns_global::send(fd, bytes, length, MSG_NOSIGNAL);\n", "    auto written = ::sendto(fd, bytes, length, MSG_NOSIGNAL, nullptr, 0);\n"),
]

import sys; sys.path.insert(0,'/verif/tools/battery')
from mut import mutq as mut, hd, done
R='p02_requests'
A='caput/mpiarray.py'; MP='caput/util/mpitools.py'
SW="                # Wait until the data has been sent\n                stat = mpitools.MPI.Status()\n                send_request.Wait(status=stat)\n\n                if stat.error != mpitools.MPI.SUCCESS:\n                    raise RuntimeError(\n                        f\"**** ERROR in MPI SEND (source: {ri},  dest rank: {rank}) *****\"\n                    )\n"
RW="                # Wait until the data has arrived\n                stat = mpitools.MPI.Status()\n                recv_request.Wait(status=stat)\n\n                if stat.error != mpitools.MPI.SUCCESS:\n                    raise RuntimeError(\n                        f\"**** ERROR in MPI RECV (source: {ri},  dest rank: {rank}) *****\"\n                    )\n"
PUT="\n                # Put the data into the correct location\n                dest_slice = [slice(None)] * len(self.shape)\n                dest_slice[self.axis] = slice(s, e)\n                arr[tuple(dest_slice)] = tbuf\n"
hd('-- bugs')
mut(R,[(A,SW,"")],'gather no send wait')
mut(R,[(A,RW+PUT,PUT+RW)],'gather copy before wait')
mut(R,[(A,SW,"                if self.comm.rank != rank:\n                    send_request.Wait()\n")],'gather self send not waited')
mut(R,[(A,"                recv_request.Wait(status=stat)\n","                recv_request.Test(status=stat)\n")],'gather Test')
mut(R,[(A,"            if self.comm.rank == rank:\n                # Wait until the data has arrived","            if self.comm.rank == rank and n > 0:\n                # Wait until the data has arrived")],'gather recv not waited if n==0')
mut(R,[(A,SW,""),(A,"        return arr\n\n    def allgather","        send_request.Wait()\n        return arr\n\n    def allgather")],'wait after loop ok-ish (only own send)') if 0 else None
mut(R,[(MP,"        if np.prod(local_size) > 0:\n            sreq.Wait()","        pass")],'no sreq wait')
mut(R,[(MP,"        if np.prod(local_size) > 0:\n            sreq.Wait()","        if np.prod(local_size) > 0 and comm.rank != root:\n            sreq.Wait()")],'sreq wait non-root')
mut(R,[(MP,"            MPI.Prequest.Waitall(reqs)\n","            MPI.Prequest.Waitall(reqs)\n            return\n")],'return before sreq wait')
mut(R,[(MP,"            MPI.Prequest.Waitall(reqs)\n","            MPI.Prequest.Waitall(reqs[1:])\n")],'waitall slice')
mut(R,[(MP,"            MPI.Prequest.Waitall(reqs)\n","            MPI.Prequest.Waitany(reqs)\n")],'waitany')
mut(R,[(MP,"            MPI.Prequest.Waitall(reqs)\n","            for req in reqs:\n                if not req.Test():\n                    req.Wait()\n                    break\n")],'wait one')
mut(R,[(MP,"        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI SEND","        if stat.error != MPI.SUCCESS:\n            break\n        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI SEND")],'break on error')
mut(R,[(MP,"                requests_send.append([ir, ic, request])","                if ir != ic:\n                    requests_send.append([ir, ic, request])")],'own send not kept')
mut(R,[(MP,"    for ir, ic, request in requests_recv:\n        stat = MPI.Status()\n\n        request.Wait(status=stat)\n","    for ir, ic, request in requests_recv:\n        stat = MPI.Status()\n\n        if ir != ic:\n            request.Wait(status=stat)\n")],'own recv not waited')
mut(R,[(MP,"    for ir, ic, request in requests_recv:\n        stat","    for ir, ic, request in requests_recv[1:]:\n        stat")],'recv slice')
mut(R,[(MP,"    comm.Barrier()\n\n    # For each frequency iterate","    out = recv_buffer.reshape((*shape[:-1], pc)).copy()\n    comm.Barrier()\n\n    # For each frequency iterate"),(MP,"    return recv_buffer.reshape((*shape[:-1], pc))","    return out")],'copied before wait')
mut(R,[(MP,"    # For each node iterate over all sends and wait until completion\n    for ir, ic, request in requests_send:\n        stat = MPI.Status()\n\n        request.Wait(status=stat)\n\n        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI SEND (r: %i c: %i rank: %i) *****\", ir, ic, comm.rank\n            )\n","")],'sends not waited')
mut(R,[(A,"            self.comm.Sendrecv(\n                sendbuf=(send_buffer, buf_type),\n                dest=send_to,\n                sendtag=(csize * crank + send_to),\n                recvbuf=(recv_buffer, buf_type),\n                source=recv_from,\n                recvtag=(csize * recv_from + crank),\n                status=mpistatus,\n            )","            req = self.comm.Isend((send_buffer, buf_type), dest=send_to, tag=(csize * crank + send_to))\n            self.comm.Recv((recv_buffer, buf_type), source=recv_from, tag=(csize * recv_from + crank), status=mpistatus)")],'isend not waited')
mut(R,[(A,"            self.comm.Sendrecv(\n                sendbuf=(send_buffer, buf_type),\n                dest=send_to,\n                sendtag=(csize * crank + send_to),\n                recvbuf=(recv_buffer, buf_type),\n                source=recv_from,\n                recvtag=(csize * recv_from + crank),\n                status=mpistatus,\n            )","            req = self.comm.Isend((send_buffer, buf_type), dest=send_to, tag=(csize * crank + send_to))\n            self.comm.Recv((recv_buffer, buf_type), source=recv_from, tag=(csize * recv_from + crank), status=mpistatus)"),(A,"            target_arr[tuple(targetsl)] = recv_buffer[tuple(recvsl)]\n\n        return dist_arr","            target_arr[tuple(targetsl)] = recv_buffer[tuple(recvsl)]\n\n        req.Wait()\n        return dist_arr")],'isend waited after the loop only')
mut(R,[(A,"            self.comm.Sendrecv(\n                sendbuf=(send_buffer, buf_type),\n                dest=send_to,\n                sendtag=(csize * crank + send_to),\n                recvbuf=(recv_buffer, buf_type),\n                source=recv_from,\n                recvtag=(csize * recv_from + crank),\n                status=mpistatus,\n            )","            rreq = self.comm.Irecv((recv_buffer, buf_type), source=recv_from, tag=(csize * recv_from + crank))\n            self.comm.Send((send_buffer, buf_type), dest=send_to, tag=(csize * crank + send_to))"),(A,"            target_arr[tuple(targetsl)] = recv_buffer[tuple(recvsl)]\n","            target_arr[tuple(targetsl)] = recv_buffer[tuple(recvsl)]\n            rreq.Wait(status=mpistatus)\n")],'irecv used before wait')
hd('-- refactors')
mut(R,[(A,SW,"                self._finish(send_request, f\"SEND (source: {ri},  dest rank: {rank})\")\n"),(A,RW,"                self._finish(recv_request, f\"RECV (source: {ri},  dest rank: {rank})\")\n"),(A,"    def allgather(self)","    @staticmethod\n    def _finish(request, what):\n        stat = mpitools.MPI.Status()\n        request.Wait(status=stat)\n        if stat.error != mpitools.MPI.SUCCESS:\n            raise RuntimeError(f\"**** ERROR in MPI {what} *****\")\n\n    def allgather(self)")],'finish helper')
mut(R,[(A,SW,"                mpitools.MPI.Request.Waitall([send_request])\n")],'waitall send')
mut(R,[(MP,"            MPI.Prequest.Waitall(reqs)\n","            for req in reqs:\n                req.Wait()\n")],'loop wait')
mut(R,[(MP,"            reqs = [\n                comm.Irecv([global_array, sub_type[si]], source=sr, tag=0)\n                for (si, sr) in enumerate(nonempty_procs)\n            ]\n","            reqs = []\n            for si, sr in enumerate(nonempty_procs):\n                reqs.append(comm.Irecv([global_array, sub_type[si]], source=sr, tag=0))\n")],'append loop')
mut(R,[(MP,"        if np.prod(local_size) > 0:\n            # send only when array is non-empty\n            sreq = comm.Isend(","        sreq = None\n        if np.prod(local_size) > 0:\n            # send only when array is non-empty\n            sreq = comm.Isend("),(MP,"        if np.prod(local_size) > 0:\n            sreq.Wait()","        if sreq is not None:\n            sreq.Wait()")],'sreq None')
mut(R,[(MP,"        if np.prod(local_size) > 0:\n            # send only when array is non-empty\n            sreq = comm.Isend(","        nonempty = np.prod(local_size) > 0\n        if nonempty:\n            # send only when array is non-empty\n            sreq = comm.Isend("),(MP,"        if np.prod(local_size) > 0:\n            sreq.Wait()","        if nonempty:\n            sreq.Wait()")],'nonempty var')
mut(R,[(MP,"                requests_send.append([ir, ic, request])","                requests_send.append((ir, ic, request))"),(MP,"                requests_recv.append([ir, ic, request])","                requests_recv.append((ir, ic, request))")],'tuples')
mut(R,[(MP,"    for ir, ic, request in requests_send:\n        stat = MPI.Status()\n\n        request.Wait(status=stat)\n\n        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI SEND (r: %i c: %i rank: %i) *****\", ir, ic, comm.rank\n            )\n\n    comm.Barrier()\n\n    # For each frequency iterate over all receives and wait until completion\n    for ir, ic, request in requests_recv:\n        stat = MPI.Status()\n\n        request.Wait(status=stat)\n\n        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI RECV (r: %i c: %i rank: %i) *****\", ir, ir, comm.rank\n            )\n","    _wait_all(requests_send, \"SEND\", comm)\n    comm.Barrier()\n    _wait_all(requests_recv, \"RECV\", comm)\n"),(MP,"def transpose_blocks(","def _wait_all(requests, kind, comm):\n    for ir, ic, request in requests:\n        stat = MPI.Status()\n        request.Wait(status=stat)\n        if stat.error != MPI.SUCCESS:\n            logger.error(\"**** ERROR in MPI %s (r: %i c: %i rank: %i) *****\", kind, ir, ic, comm.rank)\n\n\ndef transpose_blocks(")],'wait_all helper')
mut(R,[(MP,"    for ir, ic, request in requests_send:\n        stat = MPI.Status()\n\n        request.Wait(status=stat)\n\n        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI SEND (r: %i c: %i rank: %i) *****\", ir, ic, comm.rank\n            )\n","    for item in requests_send:\n        stat = MPI.Status()\n        item[2].Wait(status=stat)\n        if stat.error != MPI.SUCCESS:\n            logger.error(\"**** ERROR in MPI SEND\")\n")],'item[2]')
mut(R,[(MP,"                requests_send.append([ir, ic, request])","                requests_send.append(request)"),(MP,"    for ir, ic, request in requests_send:\n        stat = MPI.Status()\n\n        request.Wait(status=stat)\n\n        if stat.error != MPI.SUCCESS:\n            logger.error(\n                \"**** ERROR in MPI SEND (r: %i c: %i rank: %i) *****\", ir, ic, comm.rank\n            )\n","    MPI.Request.Waitall(requests_send)\n")],'waitall list')
mut(R,[(A,"            self.comm.Sendrecv(\n                sendbuf=(send_buffer, buf_type),\n                dest=send_to,\n                sendtag=(csize * crank + send_to),\n                recvbuf=(recv_buffer, buf_type),\n                source=recv_from,\n                recvtag=(csize * recv_from + crank),\n                status=mpistatus,\n            )","            req = self.comm.Isend((send_buffer, buf_type), dest=send_to, tag=(csize * crank + send_to))\n            self.comm.Recv((recv_buffer, buf_type), source=recv_from, tag=(csize * recv_from + crank), status=mpistatus)\n            req.Wait()")],'isend recv wait')
mut(R,[(MP,"            MPI.Prequest.Waitall(reqs)\n\n        # Wait on send request. Important, as can get weird synchronisation\n        # bugs otherwise as processes exit before completing their send.\n        if np.prod(local_size) > 0:\n            sreq.Wait()","        else:\n            reqs = []\n        if np.prod(local_size) > 0:\n            reqs.append(sreq)\n        MPI.Request.Waitall(reqs)")],'one waitall')
done()

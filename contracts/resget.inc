//@fn response Response::headers
//@| props C14 C11
//@| spec
        ensures res@ == self.headers@, //#C14 C11
//@end
//@fn response Response::status
//@| props C14 C11
//@| spec
        ensures *res == self.status, //#C14 C11
//@end
//@fn response Response::reason
//@| props C14 C11
//@| spec
        ensures res@ == self.reason@, //#C14 C11
//@end
